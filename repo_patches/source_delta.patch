From cda1460bf0e9d32b66a139f2fa863ba8d0d32917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 001/110] fix: keep snapshot visibility of blackboard entries
 moved by a deletion

---
 src/caliper/Blackboard.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/caliper/Blackboard.cpp b/src/caliper/Blackboard.cpp
index 3d1c00f..3541556 100644
--- a/src/caliper/Blackboard.cpp
+++ b/src/caliper/Blackboard.cpp
@@ -87,7 +87,16 @@ void Blackboard::del(cali_id_t key)
             size_t k = hashtable[j].key % Nmax;
             if ((j > I && (k <= I || k > j)) || (j < I && (k <= I && k > j))) {
                 hashtable[I] = hashtable[j];
-                I            = j;
+                // the moved entry keeps its snapshot visibility
+                if (toc[j / 32] & (1 << (j % 32))) {
+                    toc[I / 32] |= (1 << (I % 32));
+                    toctoc |= (1 << (I / 32));
+                } else {
+                    toc[I / 32] &= ~(1 << (I % 32));
+                    if (toc[I / 32] == 0)
+                        toctoc &= ~(1 << (I / 32));
+                }
+                I = j;
             }
         }
     }
-- 
2.43.0


From e6f00e5722a75674bc464b4492fa90f02f0794ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 002/110] fix: do not read before an empty string when making a
 variant

---
 include/caliper/common/cali_variant.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/caliper/common/cali_variant.h b/include/caliper/common/cali_variant.h
index 22f80bf..c648ec4 100644
--- a/include/caliper/common/cali_variant.h
+++ b/include/caliper/common/cali_variant.h
@@ -126,13 +126,15 @@ inline cali_variant_t cali_make_variant_from_string(const char* value)
     size_t   size = strlen(value);
     uint64_t hash = 0;
 
-    const unsigned char* p = (const unsigned char*) value;
-    hash |= p[0];
-    hash <<= 8;
-    hash |= p[size / 2];
-    hash <<= 8;
-    hash |= p[size - 1];
-    hash <<= 8;
+    if (size > 0) {
+        const unsigned char* p = (const unsigned char*) value;
+        hash |= p[0];
+        hash <<= 8;
+        hash |= p[size / 2];
+        hash <<= 8;
+        hash |= p[size - 1];
+        hash <<= 8;
+    }
 
     cali_variant_t v;
 
-- 
2.43.0


From 45b38e632750e5862abaf6c406b0afac4a551ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 003/110] fix: compare integer, pointer and string values
 without truncating or stopping early

cali_variant_compare() returned the 64-bit difference truncated to int (wrong
sign beyond 2^31, signed overflow near the limits) and ignored everything after
an embedded zero byte in strings, contradicting cali_variant_eq().
---
 src/common/cali_variant.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/common/cali_variant.c b/src/common/cali_variant.c
index 5f457fa..95cc0a0 100644
--- a/src/common/cali_variant.c
+++ b/src/common/cali_variant.c
@@ -454,7 +454,7 @@ int cali_variant_compare(cali_variant_t lhs, cali_variant_t rhs)
     if (lhstype == rhstype) {
         switch (lhstype) {
         case CALI_TYPE_INV:
-            return lhs.value.v_int - rhs.value.v_int;
+            return (lhs.value.v_int > rhs.value.v_int) - (lhs.value.v_int < rhs.value.v_int);
         case CALI_TYPE_USR:
             {
                 int lhssize = (int) _EXTRACT_SIZE(lhs.type_and_size);
@@ -467,12 +467,12 @@ int cali_variant_compare(cali_variant_t lhs, cali_variant_t rhs)
             {
                 int lhssize = (int) _EXTRACT_SIZE(lhs.type_and_size);
                 int rhssize = (int) _EXTRACT_SIZE(rhs.type_and_size);
-                int cmp = strncmp(lhs.value.unmanaged_const_ptr, rhs.value.unmanaged_const_ptr, imin(lhssize, rhssize));
+                int cmp = memcmp(lhs.value.unmanaged_const_ptr, rhs.value.unmanaged_const_ptr, imin(lhssize, rhssize));
 
                 return (cmp ? cmp : (lhssize - rhssize));
             }
         case CALI_TYPE_INT:
-            return lhs.value.v_int - rhs.value.v_int;
+            return (lhs.value.v_int > rhs.value.v_int) - (lhs.value.v_int < rhs.value.v_int);
         case CALI_TYPE_ADDR:
         case CALI_TYPE_UINT:
             {
@@ -491,7 +491,7 @@ int cali_variant_compare(cali_variant_t lhs, cali_variant_t rhs)
         case CALI_TYPE_TYPE:
             return ((int) lhs.value.v_type) - ((int) rhs.value.v_type);
         case CALI_TYPE_PTR:
-            return (int) ((char const*) (lhs.value.unmanaged_ptr) - (char const*) (rhs.value.unmanaged_ptr));
+            return (lhs.value.v_uint > rhs.value.v_uint) - (lhs.value.v_uint < rhs.value.v_uint);
         }
     }
 
-- 
2.43.0


From 9964d5e73cbc277c47ea6294e5fe6d853cf78ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 004/110] fix: signal failure when a double does not fit the
 requested integer type

Converting an out-of-range or NaN double to an integer is undefined behaviour;
the numeric accessors returned garbage and reported success.
---
 src/common/cali_variant.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/common/cali_variant.c b/src/common/cali_variant.c
index 95cc0a0..b5238e2 100644
--- a/src/common/cali_variant.c
+++ b/src/common/cali_variant.c
@@ -190,7 +190,10 @@ int cali_variant_to_int(cali_variant_t v, bool* okptr)
             ok = false;
         break;
     case CALI_TYPE_DOUBLE:
-        ret = (int) v.value.v_double;
+        if (v.value.v_double > (double) INT_MIN - 1.0 && v.value.v_double < (double) INT_MAX + 1.0)
+            ret = (int) v.value.v_double;
+        else
+            ok = false;
         break;
     case CALI_TYPE_BOOL:
         ret = (int) v.value.v_bool;
@@ -244,7 +247,11 @@ int64_t cali_variant_to_int64(cali_variant_t v, bool* okptr)
             ok = false;
         break;
     case CALI_TYPE_DOUBLE:
-        ret = (int64_t) v.value.v_double;
+        /* -2^63 and 2^63 are exact double values */
+        if (v.value.v_double >= -9223372036854775808.0 && v.value.v_double < 9223372036854775808.0)
+            ret = (int64_t) v.value.v_double;
+        else
+            ok = false;
         break;
     case CALI_TYPE_BOOL:
         ret = (int64_t) v.value.v_bool;
@@ -298,7 +305,11 @@ uint64_t cali_variant_to_uint(cali_variant_t v, bool* okptr)
         ret = v.value.v_uint;
         break;
     case CALI_TYPE_DOUBLE:
-        ret = (uint64_t) v.value.v_double;
+        /* 2^64 is an exact double value */
+        if (v.value.v_double > -1.0 && v.value.v_double < 18446744073709551616.0)
+            ret = (uint64_t) v.value.v_double;
+        else
+            ok = false;
         break;
     case CALI_TYPE_BOOL:
         ret = (uint64_t) v.value.v_bool;
-- 
2.43.0


From b7a489cc48f6056defacc10c72911d0fc4290ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 005/110] fix: keep the key of the skipped-records entry when
 clearing an aggregation DB

clear() keeps entry 0 but dropped its key, so records counted there after a
clear were flushed with whatever key came first, or read past the key buffer.
---
 src/services/aggregate/AggregationDB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/services/aggregate/AggregationDB.cpp b/src/services/aggregate/AggregationDB.cpp
index c138695..3124939 100644
--- a/src/services/aggregate/AggregationDB.cpp
+++ b/src/services/aggregate/AggregationDB.cpp
@@ -111,7 +111,7 @@ void AggregationDB::clear()
     m_hashmap.assign(m_hashmap.size(), 0);
     m_entries.resize(1);
     m_kernels.resize(0);
-    m_keyents.resize(0);
+    m_keyents.resize(1); // keep the key of the "skipped records" entry
 
     m_entries[0].count = 0;
 }
-- 
2.43.0


From 5c9078fb4a04220b6361d360b7410abe52034f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 006/110] fix: use the complete aggregation key

Keys with more than 16 entries were cut off, and snapshots that differ only in
the remaining key attributes were combined.
---
 src/services/aggregate/AggregationDB.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/services/aggregate/AggregationDB.cpp b/src/services/aggregate/AggregationDB.cpp
index 3124939..577d9f6 100644
--- a/src/services/aggregate/AggregationDB.cpp
+++ b/src/services/aggregate/AggregationDB.cpp
@@ -17,7 +17,8 @@
 using namespace cali;
 using namespace aggregate;
 
-#define MAX_KEYLEN 16
+// Must fit all entries of a snapshot record (SNAP_MAX in Caliper.cpp)
+#define MAX_KEYLEN 120
 
 AggregateEntry* AggregationDB::find_or_create_entry(SnapshotView key, std::size_t hash, std::size_t num_aggr_attrs, bool can_alloc)
 {
-- 
2.43.0


From b5c24afed2fcf9f0df2f2cc7031137947dd604de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 007/110] fix: aggregate attributes that are created after an
 aggregation entry

An entry only had kernels for the aggregatable attributes known when its key
was first seen; values of later attributes were dropped for that key.
---
 src/services/aggregate/AggregationDB.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/services/aggregate/AggregationDB.cpp b/src/services/aggregate/AggregationDB.cpp
index 577d9f6..db53c0c 100644
--- a/src/services/aggregate/AggregationDB.cpp
+++ b/src/services/aggregate/AggregationDB.cpp
@@ -93,6 +93,19 @@ void AggregationDB::process_snapshot(Caliper* c, SnapshotView rec, const Attribu
 
     AggregateEntry* entry = find_or_create_entry(key.view(), hash, info.aggr_attrs.size(), !c->is_signal());
 
+    // --- make room for attributes that were created after this entry
+
+    size_t num_aggr_attrs = info.aggr_attrs.size();
+
+    if (entry != &m_entries[0] && entry->num_kernels < num_aggr_attrs
+        && (!c->is_signal() || m_kernels.size() + num_aggr_attrs < m_kernels.capacity())) {
+        size_t kernels_idx = m_kernels.size();
+        m_kernels.resize(kernels_idx + num_aggr_attrs, AggregateKernel());
+        std::copy_n(m_kernels.begin() + entry->kernels_idx, entry->num_kernels, m_kernels.begin() + kernels_idx);
+        entry->kernels_idx = kernels_idx;
+        entry->num_kernels = num_aggr_attrs;
+    }
+
     // --- update values
 
     ++entry->count;
-- 
2.43.0


From 7f03109d83ba87b13e40c8f77c702b18d130c063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 008/110] fix: align values stored in the metadata tree

The event service reads arrays of 64-bit ids directly from stored blobs, which
were placed at any byte address.
---
 src/caliper/MetadataTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/caliper/MetadataTree.cpp b/src/caliper/MetadataTree.cpp
index f8f9f26..38b5526 100644
--- a/src/caliper/MetadataTree.cpp
+++ b/src/caliper/MetadataTree.cpp
@@ -197,7 +197,7 @@ Node* MetadataTree::create_child(const Attribute& attr, const Variant& value, No
     void* ptr = nullptr;
 
     if (value.has_unmanaged_data())
-        ptr = m_mempool.allocate(value.size() + 1 /* ensure 0-padding so we can safely hand out string ptrs */);
+        ptr = m_mempool.allocate(value.size() + 1 /* ensure 0-padding so we can safely hand out string ptrs */, alignof(uint64_t) /* blobs may hold ids */);
 
     size_t      index = m_nodeblock->index++;
     GlobalData* g     = mG.load();
-- 
2.43.0


From 86a7ce7412e51658a335a3484af09b4a51bccd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:22 +0000
Subject: [PATCH 009/110] fix: reject a trace buffer size of zero

Records were written to a zero-size buffer (heap overflow with the grow and
flush policies).
---
 src/services/trace/Trace.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/services/trace/Trace.cpp b/src/services/trace/Trace.cpp
index e3ac45e..8c300d9 100644
--- a/src/services/trace/Trace.cpp
+++ b/src/services/trace/Trace.cpp
@@ -277,6 +277,11 @@ class Trace
         init_overflow_policy(cfg.get("buffer_policy").to_string());
         buffersize = cfg.get("buffer_size").to_uint() * 1024 * 1024;
 
+        if (buffersize == 0) {
+            Log(0).stream() << channel->name() << ": trace: Invalid buffer size, using 1 MiB\n";
+            buffersize = 1024 * 1024;
+        }
+
         tbuf_attr = c->create_attribute(
             std::string("trace.tbuf.") + std::to_string(channel->id()),
             CALI_TYPE_PTR,
-- 
2.43.0


From 596e36170d93296ee13f9c63aaec672707846fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:22 +0000
Subject: [PATCH 010/110] fix: empty the trace buffer after flushing it on
 overflow

With the flush buffer policy, records were kept after the overflow flush: the
next record was written past the end of the buffer, and every record was
written again by the next flush.
---
 src/services/trace/Trace.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/services/trace/Trace.cpp b/src/services/trace/Trace.cpp
index 8c300d9..baf2590 100644
--- a/src/services/trace/Trace.cpp
+++ b/src/services/trace/Trace.cpp
@@ -123,6 +123,7 @@ class Trace
             {
                 Log(1).stream() << m_channel.name() << ": trace: Trace buffer full, flushing.\n";
                 c->flush_and_write(m_channel.body(), SnapshotView());
+                c->clear(&m_channel);
                 return tbuf;
             }
 
-- 
2.43.0


From 5cbcd1e1a7ef85a29318465f561bdd8b3b09b1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:22 +0000
Subject: [PATCH 011/110] fix: flush trace buffer chunks in the order in which
 they were filled

New chunks are put at the head of the list, so that a thread's newest records
were written first.
---
 src/services/trace/TraceBufferChunk.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/services/trace/TraceBufferChunk.cpp b/src/services/trace/TraceBufferChunk.cpp
index 6bc5bb0..e35627a 100644
--- a/src/services/trace/TraceBufferChunk.cpp
+++ b/src/services/trace/TraceBufferChunk.cpp
@@ -44,6 +44,13 @@ size_t TraceBufferChunk::flush(Caliper* c, SnapshotFlushFn proc_fn)
 {
     size_t written = 0;
 
+    //
+    // flush subsequent buffers in list first: they are older
+    //
+
+    if (m_next)
+        written += m_next->flush(c, proc_fn);
+
     //
     // local flush
     //
@@ -66,13 +73,6 @@ size_t TraceBufferChunk::flush(Caliper* c, SnapshotFlushFn proc_fn)
 
     written += m_nrec;
 
-    //
-    // flush subsequent buffers in list
-    //
-
-    if (m_next)
-        written += m_next->flush(c, proc_fn);
-
     return written;
 }
 
-- 
2.43.0


From bff4f960734d05de12b0fd70b4c359aabbe381d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:22 +0000
Subject: [PATCH 012/110] fix: do not resume a stopped trace buffer by flushing
 it

With the stop policy, a flush let small records into the still full buffer
again, leaving gaps in the recorded history.
---
 src/services/trace/Trace.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/services/trace/Trace.cpp b/src/services/trace/Trace.cpp
index baf2590..872581e 100644
--- a/src/services/trace/Trace.cpp
+++ b/src/services/trace/Trace.cpp
@@ -165,9 +165,9 @@ class Trace
             // Stop tracing while we flush: writers won't block
             // but just drop the snapshot
 
-            tbuf->stopped.store(true);
+            bool was_stopped = tbuf->stopped.exchange(true);
             num_written += tbuf->chunks->flush(c, proc_fn);
-            tbuf->stopped.store(false);
+            tbuf->stopped.store(was_stopped);
         }
 
         Log(1).stream() << m_channel.name() << ": trace: Flushed " << num_written << " snapshots.\n";
-- 
2.43.0


From 3b3e1f18f15bea9328e766ad4c0871d715322491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 013/110] fix: decide region branch filters by the thread's
 open regions

---
 src/services/event/EventTrigger.cpp | 42 +++++++++++++++--------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/services/event/EventTrigger.cpp b/src/services/event/EventTrigger.cpp
index 9e494c8..dbc6836 100644
--- a/src/services/event/EventTrigger.cpp
+++ b/src/services/event/EventTrigger.cpp
@@ -58,8 +58,6 @@ class EventTrigger
     RegionFilter region_filter;
     RegionFilter branch_filter;
 
-    std::vector<Variant> branch_filter_stack;
-
     std::string channel_name;
 
     //
@@ -138,6 +136,22 @@ class EventTrigger
         return nullptr;
     }
 
+    //   Returns true if the given region or any of the regions currently open
+    // around it on this thread is selected by the branch filter.
+    bool in_selected_branch(Caliper* c, const Attribute& attr, const Variant& value)
+    {
+        if (value.type() == CALI_TYPE_STRING && branch_filter.pass(value))
+            return true;
+
+        for (const Entry& entry : { c->get_blackboard_entry(attr), c->get_path_node() })
+            if (entry.is_reference())
+                for (const Node* node = entry.node(); node; node = node->parent())
+                    if (node->data().type() == CALI_TYPE_STRING && branch_filter.pass(node->data()))
+                        return true;
+
+        return false;
+    }
+
     static inline bool is_subscription_attribute(const Attribute& attr)
     {
         return attr.get(cali::subscription_event_attr).to_bool();
@@ -155,12 +169,8 @@ class EventTrigger
             return;
         if (attr.type() == CALI_TYPE_STRING && !region_filter.pass(value))
             return;
-        if (branch_filter.has_filters()) {
-            if (branch_filter.pass(value))
-                branch_filter_stack.push_back(value);
-            if (branch_filter_stack.empty())
-                return;
-        }
+        if (branch_filter.has_filters() && !in_selected_branch(c, attr, value))
+            return;
 
         if (enable_snapshot_info) {
             assert(!marker_node->data().empty());
@@ -199,12 +209,8 @@ class EventTrigger
             return;
         if (attr.type() == CALI_TYPE_STRING && !region_filter.pass(value))
             return;
-        if (branch_filter.has_filters()) {
-            if (branch_filter.pass(value))
-                branch_filter_stack.push_back(value);
-            if (branch_filter_stack.empty())
-                return;
-        }
+        if (branch_filter.has_filters() && !in_selected_branch(c, attr, value))
+            return;
 
         if (enable_snapshot_info) {
             assert(!marker_node->data().empty());
@@ -235,12 +241,8 @@ class EventTrigger
             return;
         if (attr.type() == CALI_TYPE_STRING && !region_filter.pass(value))
             return;
-        if (branch_filter.has_filters()) {
-            if (branch_filter_stack.empty())
-                return;
-            if (value == branch_filter_stack.back())
-                branch_filter_stack.pop_back();
-        }
+        if (branch_filter.has_filters() && !in_selected_branch(c, attr, value))
+            return;
 
         if (enable_snapshot_info) {
             assert(!marker_node->data().empty());
-- 
2.43.0


From 3667265580691291f76bcbe0ff252cae34817331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 014/110] fix: refuse invalid channel ids and uninitialized use
 in cali_channel_flush and cali_channel_get

---
 src/caliper/cali.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/caliper/cali.cpp b/src/caliper/cali.cpp
index a389a34..7e11dbf 100644
--- a/src/caliper/cali.cpp
+++ b/src/caliper/cali.cpp
@@ -339,10 +339,14 @@ cali_variant_t cali_get(cali_id_t attr_id)
 
 cali_variant_t cali_channel_get(cali_id_t chn_id, cali_id_t attr_id)
 {
-    Caliper c       = Caliper::sigsafe_instance();
+    Caliper c = Caliper::sigsafe_instance();
+
+    if (!c)
+        return cali_make_empty_variant();
+
     Channel channel = c.get_channel(chn_id);
 
-    if (!c || !channel)
+    if (!channel)
         return cali_make_empty_variant();
 
     return c.get(channel.body(), c.get_attribute(attr_id)).value().c_variant();
@@ -724,6 +728,11 @@ void cali_channel_flush(cali_id_t chn_id, int flush_opts)
     Caliper c;
     Channel channel = c.get_channel(chn_id);
 
+    if (!channel) {
+        Log(0).stream() << "cali_channel_flush(): invalid channel id " << chn_id << std::endl;
+        return;
+    }
+
     c.flush_and_write(channel.body(), SnapshotView());
 
     if (flush_opts & CALI_FLUSH_CLEAR_BUFFERS)
-- 
2.43.0


From 67175d7cfd3e33d18cfc140f74804ba2eb9aed31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:22 +0000
Subject: [PATCH 015/110] fix: keep loop statistics per thread

---
 src/services/LoopStatistics.cpp | 40 +++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/services/LoopStatistics.cpp b/src/services/LoopStatistics.cpp
index 652216f..1266e4d 100644
--- a/src/services/LoopStatistics.cpp
+++ b/src/services/LoopStatistics.cpp
@@ -9,6 +9,9 @@
 #include "caliper/common/Log.h"
 
 #include <chrono>
+#include <mutex>
+#include <thread>
+#include <unordered_map>
 #include <vector>
 
 using namespace cali;
@@ -33,32 +36,47 @@ class LoopStatisticsService
         uint64_t          num_iterations;
     };
 
-    std::vector<LoopInfo> m_loop_info;
+    // The loops currently open on each thread
+    std::unordered_map<std::thread::id, std::vector<LoopInfo>> m_loop_info;
+    std::mutex m_loop_info_lock;
 
     Attribute m_iter_duration_attr;
     Attribute m_iter_count_attr;
 
+    std::vector<LoopInfo>& get_loop_info()
+    {
+        std::lock_guard<std::mutex> g(m_loop_info_lock);
+        return m_loop_info[std::this_thread::get_id()];
+    }
+
     void begin_cb(Caliper* c, ChannelBody* chB, const Attribute& attr, const Variant& data)
     {
         if (attr == loop_attr) {
-            m_loop_info.emplace_back(LoopInfo { clock::now(), 0 });
-        } else if (attr.get(class_iteration_attr).to_bool() && !m_loop_info.empty()) {
-            m_loop_info.back().iter_start_time = clock::now();
-            m_loop_info.back().num_iterations++;
+            get_loop_info().emplace_back(LoopInfo { clock::now(), 0 });
+        } else if (attr.get(class_iteration_attr).to_bool()) {
+            auto& loop_info = get_loop_info();
+            if (loop_info.empty())
+                return;
+            loop_info.back().iter_start_time = clock::now();
+            loop_info.back().num_iterations++;
         }
     }
 
     void end_cb(Caliper* c, ChannelBody* chB, const Attribute& attr, const Variant& data)
     {
-        if (m_loop_info.empty())
-            return;
         if (attr == loop_attr) {
-            Entry e { m_iter_count_attr, Variant(m_loop_info.back().num_iterations) };
+            auto& loop_info = get_loop_info();
+            if (loop_info.empty())
+                return;
+            Entry e { m_iter_count_attr, Variant(loop_info.back().num_iterations) };
             c->push_snapshot(chB, SnapshotView(e));
-            m_loop_info.pop_back();
+            loop_info.pop_back();
         } else if (attr.get(class_iteration_attr).to_bool()) {
+            auto& loop_info = get_loop_info();
+            if (loop_info.empty())
+                return;
             uint64_t t =
-                std::chrono::duration_cast<std::chrono::nanoseconds>(clock::now() - m_loop_info.back().iter_start_time)
+                std::chrono::duration_cast<std::chrono::nanoseconds>(clock::now() - loop_info.back().iter_start_time)
                     .count();
             Entry e { m_iter_duration_attr, Variant(t) };
             c->push_snapshot(chB, SnapshotView(e));
@@ -77,8 +95,6 @@ class LoopStatisticsService
             CALI_TYPE_UINT,
             CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE | CALI_ATTR_SKIP_EVENTS
         );
-
-        m_loop_info.reserve(4);
     }
 
 public:
-- 
2.43.0


From f7be61d1a2d98d32f604a411f4732a07159b1317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:22 +0000
Subject: [PATCH 016/110] fix: keep loop monitor state per thread and match
 target loops exactly

---
 src/services/monitor/LoopMonitor.cpp | 93 +++++++++++++++++-----------
 1 file changed, 58 insertions(+), 35 deletions(-)

diff --git a/src/services/monitor/LoopMonitor.cpp b/src/services/monitor/LoopMonitor.cpp
index 5ead469..0140502 100644
--- a/src/services/monitor/LoopMonitor.cpp
+++ b/src/services/monitor/LoopMonitor.cpp
@@ -8,7 +8,11 @@
 
 #include "caliper/common/Log.h"
 
+#include <atomic>
 #include <chrono>
+#include <mutex>
+#include <thread>
+#include <unordered_map>
 #include <vector>
 
 using namespace cali;
@@ -26,11 +30,19 @@ namespace
 
 class LoopMonitor
 {
-    int loop_level;
-    int target_level;
-    int start_iteration;
-    int num_iterations;
-    int num_snapshots;
+    struct ThreadInfo {
+        int loop_level { 0 };
+        int target_level { -1 };
+        int start_iteration { -1 };
+        int num_iterations { 0 };
+
+        std::chrono::high_resolution_clock::time_point last_snapshot_time;
+    };
+
+    std::unordered_map<std::thread::id, ThreadInfo> thread_info;
+    std::mutex thread_info_lock;
+
+    std::atomic<int> num_snapshots;
 
     int    iteration_interval;
     double time_interval;
@@ -40,7 +52,11 @@ class LoopMonitor
 
     std::vector<std::string> target_loops;
 
-    std::chrono::high_resolution_clock::time_point last_snapshot_time;
+    ThreadInfo& get_thread_info()
+    {
+        std::lock_guard<std::mutex> g(thread_info_lock);
+        return thread_info[std::this_thread::get_id()];
+    }
 
     bool is_target_loop(const Variant& value)
     {
@@ -48,62 +64,73 @@ class LoopMonitor
             return true;
 
         for (const std::string& s : target_loops)
-            if (strncmp(static_cast<const char*>(value.data()), s.data(), s.size()) == 0)
+            if (s.compare(0, s.size(), static_cast<const char*>(value.data()), value.size()) == 0)
                 return true;
 
         return false;
     }
 
-    void snapshot(Caliper* c, ChannelBody* chB)
+    void snapshot(Caliper* c, ChannelBody* chB, ThreadInfo& info)
     {
-        Entry  data[] = { { num_iterations_attr, Variant(num_iterations) },
-                          { start_iteration_attr, Variant(start_iteration) } };
-        size_t n      = start_iteration >= 0 ? 2 : 1;
+        Entry  data[] = { { num_iterations_attr, Variant(info.num_iterations) },
+                          { start_iteration_attr, Variant(info.start_iteration) } };
+        size_t n      = info.start_iteration >= 0 ? 2 : 1;
         c->push_snapshot(chB, SnapshotView(n, data));
 
-        start_iteration = -1;
-        num_iterations  = 0;
+        info.start_iteration = -1;
+        info.num_iterations  = 0;
         ++num_snapshots;
 
-        last_snapshot_time = std::chrono::high_resolution_clock::now();
+        info.last_snapshot_time = std::chrono::high_resolution_clock::now();
     }
 
     void begin_cb(Caliper* c, ChannelBody* chB, const Attribute& attr, const Variant& value)
     {
         if (attr == loop_attr) {
-            if (target_level < 0 && is_target_loop(value)) {
-                target_level = loop_level + 1;
-                snapshot(c, chB);
+            ThreadInfo& info = get_thread_info();
+            if (info.target_level < 0 && is_target_loop(value)) {
+                info.target_level = info.loop_level + 1;
+                snapshot(c, chB, info);
             }
-            ++loop_level;
-        } else if (loop_level == target_level && attr.get(cali::class_iteration_attr).to_bool()) {
-            ++num_iterations;
-            if (start_iteration < 0)
-                start_iteration = value.to_int();
+            ++info.loop_level;
+        } else if (attr.get(cali::class_iteration_attr).to_bool()) {
+            ThreadInfo& info = get_thread_info();
+            if (info.loop_level != info.target_level)
+                return;
+            ++info.num_iterations;
+            if (info.start_iteration < 0)
+                info.start_iteration = value.to_int();
         }
     }
 
     void end_cb(Caliper* c, ChannelBody* chB, const Attribute& attr, const Variant& value)
     {
         if (attr == loop_attr) {
-            if (loop_level == target_level) {
-                snapshot(c, chB);
-                target_level = -1;
+            ThreadInfo& info = get_thread_info();
+            if (info.loop_level == 0) // loop began before the channel was active
+                return;
+            if (info.loop_level == info.target_level) {
+                snapshot(c, chB, info);
+                info.target_level = -1;
             }
-            --loop_level;
-        } else if (loop_level == target_level && attr.get(cali::class_iteration_attr).to_bool()) {
+            --info.loop_level;
+        } else if (attr.get(cali::class_iteration_attr).to_bool()) {
+            ThreadInfo& info = get_thread_info();
+            if (info.loop_level != info.target_level)
+                return;
+
             bool do_snapshot = false;
 
-            if (iteration_interval > 0 && num_iterations % iteration_interval == 0)
+            if (iteration_interval > 0 && info.num_iterations % iteration_interval == 0)
                 do_snapshot = true;
             if (time_interval > 0) {
                 auto now = std::chrono::high_resolution_clock::now();
-                if (std::chrono::duration<double>(now - last_snapshot_time).count() > time_interval)
+                if (std::chrono::duration<double>(now - info.last_snapshot_time).count() > time_interval)
                     do_snapshot = true;
             }
 
             if (do_snapshot)
-                snapshot(c, chB);
+                snapshot(c, chB, info);
         }
     }
 
@@ -114,11 +141,7 @@ class LoopMonitor
     }
 
     LoopMonitor(Caliper* c, Channel* channel)
-        : loop_level(0),
-          target_level(-1),
-          start_iteration(-1),
-          num_iterations(0),
-          num_snapshots(0),
+        : num_snapshots(0),
           iteration_interval(0),
           time_interval(0.0)
     {
-- 
2.43.0


From 3c9b8f5fce156143dea0ca42753365f3343599b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:22 +0000
Subject: [PATCH 017/110] fix: keep region monitor state per thread and ignore
 regions opened before activation

---
 src/services/monitor/RegionMonitor.cpp | 48 +++++++++++++++++---------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/services/monitor/RegionMonitor.cpp b/src/services/monitor/RegionMonitor.cpp
index 5bdb75d..4dd0edc 100644
--- a/src/services/monitor/RegionMonitor.cpp
+++ b/src/services/monitor/RegionMonitor.cpp
@@ -9,7 +9,10 @@
 #include "caliper/common/Log.h"
 
 #include <chrono>
+#include <mutex>
+#include <thread>
 #include <unordered_map>
+#include <vector>
 
 using namespace cali;
 
@@ -23,12 +26,19 @@ class RegionMonitor
         double child_time;
     };
 
-    std::unordered_map<cali_id_t, RegionInfo>                   m_tracking_regions;
-    std::vector<std::chrono::high_resolution_clock::time_point> m_time_stack;
+    struct ThreadInfo {
+        std::vector<std::chrono::high_resolution_clock::time_point> time_stack;
+
+        bool measuring { false };
+        int  skip { 0 };
+    };
+
+    std::unordered_map<cali_id_t, RegionInfo>       m_tracking_regions;
+    std::unordered_map<std::thread::id, ThreadInfo> m_thread_info;
+
+    std::mutex m_lock;
 
     double m_min_interval;
-    bool   m_measuring;
-    int    m_skip;
 
     unsigned m_num_measured;
 
@@ -36,8 +46,11 @@ class RegionMonitor
     {
         if (!attr.is_nested())
             return;
-        if (m_measuring) {
-            ++m_skip;
+        std::lock_guard<std::mutex> g(m_lock);
+        ThreadInfo& info = m_thread_info[std::this_thread::get_id()];
+
+        if (info.measuring) {
+            ++info.skip;
             return;
         }
 
@@ -45,7 +58,7 @@ class RegionMonitor
         if (!node)
             return;
 
-        m_time_stack.push_back(std::chrono::high_resolution_clock::now());
+        info.time_stack.push_back(std::chrono::high_resolution_clock::now());
 
         auto it = m_tracking_regions.find(node->id());
 
@@ -53,8 +66,8 @@ class RegionMonitor
             if (it->second.inclusive_time > 2.0 * it->second.child_time) {
                 SnapshotBuilder tmp;
                 c->pull_snapshot(chB, SnapshotView(), tmp);
-                m_measuring = true;
-                m_skip      = 1;
+                info.measuring = true;
+                info.skip      = 1;
             }
         }
     }
@@ -64,22 +77,25 @@ class RegionMonitor
         if (!attr.is_nested())
             return;
 
-        if (m_measuring) {
-            if (--m_skip > 0)
+        std::lock_guard<std::mutex> g(m_lock);
+        ThreadInfo& info = m_thread_info[std::this_thread::get_id()];
+
+        if (info.measuring) {
+            if (--info.skip > 0)
                 return;
 
-            m_measuring = false;
+            info.measuring = false;
             ++m_num_measured;
             c->push_snapshot(chB, SnapshotView());
         }
 
         const Node* node = c->get(attr).node();
-        if (!node)
+        if (!node || info.time_stack.empty() /* region began before the channel was active */)
             return;
 
         auto now  = std::chrono::high_resolution_clock::now();
-        auto prev = m_time_stack.back();
-        m_time_stack.pop_back();
+        auto prev = info.time_stack.back();
+        info.time_stack.pop_back();
 
         double duration = std::chrono::duration<double>(now - prev).count();
 
@@ -115,7 +131,7 @@ class RegionMonitor
                         << " instances measured." << std::endl;
     }
 
-    RegionMonitor(Caliper*, Channel* channel) : m_measuring(false), m_skip(0), m_num_measured(0)
+    RegionMonitor(Caliper*, Channel* channel) : m_num_measured(0)
     {
         ConfigSet config = services::init_config_from_spec(channel->config(), s_spec);
         m_min_interval   = config.get("time_interval").to_double();
-- 
2.43.0


From 82229e9a6809fa5c2aea247a255efe9cf7905bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 018/110] fix: keep bytes above 0x7f in escaped strings

On platforms with signed char the check for control characters also
dropped every non-ASCII byte from strings in .cali and JSON output.
---
 src/common/util/format_util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/util/format_util.h b/src/common/util/format_util.h
index be55f3b..8f479d6 100644
--- a/src/common/util/format_util.h
+++ b/src/common/util/format_util.h
@@ -39,7 +39,7 @@ inline std::ostream& write_json_esc_string(std::ostream& os, const char* str, st
             os.put('\\');
             os.put('n');
         }
-        if (c < 0x20) // skip control characters
+        if (static_cast<unsigned char>(c) < 0x20) // skip control characters
             continue;
         if (c == '\\' || c == '\"')
             os.put('\\');
@@ -57,7 +57,7 @@ inline std::ostream& write_cali_esc_string(std::ostream& os, const char* str, st
     for (size_t i = 0; i < size; ++i) {
         const char c = str[i];
 
-        if (c < 0x20) {
+        if (static_cast<unsigned char>(c) < 0x20) {
             if (c == '\n') { // handle newline in string
                 os.put('\\');
                 os.put('n');
-- 
2.43.0


From 8fe6b8402c53ec93559cb36512d6e38ed3f74c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 019/110] fix: write doubles to .cali streams with full
 precision

Variant::write_cali() used the stream's default of six significant digits,
so values changed when written and read back.
---
 src/common/Variant.cpp        |  2 +-
 src/common/util/format_util.h | 16 ++++++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/common/Variant.cpp b/src/common/Variant.cpp
index 3614e2b..8c998c7 100644
--- a/src/common/Variant.cpp
+++ b/src/common/Variant.cpp
@@ -158,7 +158,7 @@ std::ostream& Variant::write_cali(std::ostream& os)
         os << m_v.value.v_int;
         break;
     case CALI_TYPE_DOUBLE:
-        os << m_v.value.v_double;
+        util::write_double(os, m_v.value.v_double);
         break;
     case CALI_TYPE_UINT:
         util::write_uint64(os, m_v.value.v_uint);
diff --git a/src/common/util/format_util.h b/src/common/util/format_util.h
index 8f479d6..f5aa7d2 100644
--- a/src/common/util/format_util.h
+++ b/src/common/util/format_util.h
@@ -7,6 +7,8 @@
 #pragma once
 
 #include <cstdint>
+#include <cstdio>
+#include <cstdlib>
 #include <iostream>
 #include <string>
 
@@ -28,6 +30,20 @@ inline std::ostream& write_uint64(std::ostream& os, uint64_t value)
     return os;
 }
 
+/// \brief Write \a value into \a os with enough digits to read back the same value
+inline std::ostream& write_double(std::ostream& os, double value)
+{
+    char buf[32];
+    std::snprintf(buf, sizeof(buf), "%.15g", value);
+    bool is_exact = (std::strtod(buf, nullptr) == value);
+
+    std::streamsize precision = os.precision(is_exact ? 15 : 17);
+    os << value;
+    os.precision(precision);
+
+    return os;
+}
+
 /// \brief Write string \a str to \a os,
 ///   escaping all characters in \a mask_chars with \a esc.
 inline std::ostream& write_json_esc_string(std::ostream& os, const char* str, std::string::size_type size)
-- 
2.43.0


From d6b829c3d05aad99902ed65f1f46269b7ea7c3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 020/110] fix: group-by treated non-nested values in different
 order as different groups

Aggregator keys combined the non-nested reference entries in the order in
which they appear in the record's context, so the same group appeared
several times in the output when records set the attributes in different
order.
---
 src/reader/Aggregator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/reader/Aggregator.cpp b/src/reader/Aggregator.cpp
index 6b0ae8a..f82a904 100644
--- a/src/reader/Aggregator.cpp
+++ b/src/reader/Aggregator.cpp
@@ -1094,6 +1094,11 @@ struct Aggregator::AggregatorImpl {
 
         if (!non_path_nodes.empty()) {
             std::reverse(non_path_nodes.begin(), non_path_nodes.end());
+            // for explicit keys, the order in which the record holds them doesn't matter
+            if (!m_select_all)
+                std::stable_sort(non_path_nodes.begin(), non_path_nodes.end(), [](const Node* a, const Node* b) {
+                    return a->attribute() < b->attribute();
+                });
             key.emplace_back(db.make_tree_entry(non_path_nodes.size(), non_path_nodes.data()));
         }
 
-- 
2.43.0


From fd8809730f0f60248c36e2d5b1aa2a167c8641c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 021/110] fix: reading a record whose last value is an empty
 string

The reader missed a 'data=' at the end of a line.
---
 src/reader/CaliReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader/CaliReader.cpp b/src/reader/CaliReader.cpp
index bf8479a..7d4d8da 100644
--- a/src/reader/CaliReader.cpp
+++ b/src/reader/CaliReader.cpp
@@ -46,7 +46,7 @@ public:
 
     inline bool matches(size_t N, const char* key)
     {
-        if (it_ + N < end_) {
+        if (static_cast<size_t>(end_ - it_) >= N) {
             if (std::equal(it_, it_ + N, key)) {
                 it_ += N;
                 return true;
-- 
2.43.0


From 46648bf380aa18764e2b0d979d704abb8909ffd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:13 +0000
Subject: [PATCH 022/110] fix: read .cali records without fields

CaliWriter writes "__rec=globals" for runs without global values and
"__rec=ctx" for empty snapshots; CaliReader reported an error on them.
---
 src/reader/CaliReader.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/reader/CaliReader.cpp b/src/reader/CaliReader.cpp
index 7d4d8da..f1a4beb 100644
--- a/src/reader/CaliReader.cpp
+++ b/src/reader/CaliReader.cpp
@@ -55,6 +55,16 @@ public:
         return false;
     }
 
+    /// \brief Match the start of a "\a key[,field...]" record
+    inline bool matches_record(size_t N, const char* key)
+    {
+        fast_istringstream is = *this;
+        if (!is.matches(N, key) || (is.good() && !is.matches(',')))
+            return false;
+        *this = is;
+        return true;
+    }
+
     std::string context() { return std::string { it_, end_ }; }
 };
 
@@ -240,11 +250,11 @@ struct CaliReader::CaliReaderImpl {
         SnapshotProcessFn&  snap_proc
     )
     {
-        if (is.matches(11, "__rec=node,")) {
+        if (is.matches_record(10, "__rec=node")) {
             read_node(is, db, idmap, node_proc);
-        } else if (is.matches(10, "__rec=ctx,")) {
+        } else if (is.matches_record(9, "__rec=ctx")) {
             read_snapshot(is, db, idmap, snap_proc);
-        } else if (is.matches(14, "__rec=globals,")) {
+        } else if (is.matches_record(13, "__rec=globals")) {
             read_globals(is, db, idmap);
         } else {
             set_error(std::string("Unknown/invalid record: ") + is.context());
-- 
2.43.0


From 28ea3b16bc1559ee2dc1074e056dd74b0befc317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:26 +0000
Subject: [PATCH 023/110] fix: merging partial aggregation results

Results of inclusive kernels were added to the parents again when partial
results were merged (e.g. across MPI ranks), partial sums shared by several
kernels were added once per kernel, parent rows were counted as records, and
percent_total lost partial sums of inputs with a total of zero or less.
---
 src/reader/Aggregator.cpp | 60 +++++++++++++++++++++++++++++++++++----
 1 file changed, 54 insertions(+), 6 deletions(-)

diff --git a/src/reader/Aggregator.cpp b/src/reader/Aggregator.cpp
index f82a904..7d55f31 100644
--- a/src/reader/Aggregator.cpp
+++ b/src/reader/Aggregator.cpp
@@ -98,9 +98,30 @@ inline int apply_to_matching_entries(CaliperMetadataAccessInterface& db, Aggrega
         return 0;
     cali_id_t tgt_attr_id = attr.target_attr(db).id();
     cali_id_t drv_attr_id = attr.derived_attr(db).id();
+    int  count = 0;
+    bool have_derived = false;
+    for (const Entry& e : rec)
+        if (e.node()->id() == tgt_attr_id) {
+            F(e);
+            ++count;
+        } else if (e.node()->id() == drv_attr_id && !have_derived) {
+            // kernels with a common target write the same partial result: take it only once
+            F(e);
+            ++count;
+            have_derived = true;
+        }
+    return count;
+}
+
+// Apply F to the target attribute entries only, i.e. not to (possibly inclusive) partial results
+inline int apply_to_target_entries(CaliperMetadataAccessInterface& db, AggregationAttributeManager& attr, const std::vector<Entry>& rec, std::function<void(const Entry&)> F)
+{
+    if (!attr.derived_attr(db))
+        return 0;
+    cali_id_t tgt_attr_id = attr.target_attr(db).id();
     int count = 0;
     for (const Entry& e : rec)
-        if (e.node()->id() == tgt_attr_id || e.node()->id() == drv_attr_id) {
+        if (e.node()->id() == tgt_attr_id) {
             F(e);
             ++count;
         }
@@ -142,10 +163,13 @@ public:
     class Config : public AggregateKernelConfig
     {
         CustomAttributeManager m_count_attr;
+        CustomAttributeManager m_none_attr { "count.none", CALI_TYPE_BOOL, CALI_ATTR_HIDDEN };
 
     public:
 
         Attribute attr(CaliperMetadataAccessInterface& db) { return m_count_attr.get(db); }
+        // marks partial results that stand for no record, i.e. parents made by inclusive kernels
+        Attribute none_attr(CaliperMetadataAccessInterface& db) { return m_none_attr.get(db); }
 
         AggregateKernel* make_kernel() override { return new CountKernel(this); }
 
@@ -160,11 +184,13 @@ public:
     {
         Attribute count_attr = m_config->attr(db);
         cali_id_t count_attr_id = count_attr.id();
+        cali_id_t none_attr_id  = m_config->none_attr(db).id();
         for (const Entry& e : list)
             if (e.attribute() == count_attr_id) {
                 m_count += e.value().to_uint();
                 return 1;
-            }
+            } else if (e.attribute() == none_attr_id)
+                return 0;
 
         ++m_count;
         return 1;
@@ -175,6 +201,8 @@ public:
         uint64_t count = m_count.load();
         if (count > 0)
             list.push_back(Entry(m_config->attr(db), Variant(cali_make_variant_from_uint(count))));
+        else
+            list.push_back(Entry(m_config->none_attr(db), Variant(true)));
     }
 
 private:
@@ -191,6 +219,7 @@ public:
     {
         CustomAttributeManager m_count_attr;
         CustomAttributeManager m_result_attr { "scount", CALI_TYPE_DOUBLE };
+        CustomAttributeManager m_none_attr { "count.none", CALI_TYPE_BOOL, CALI_ATTR_HIDDEN };
 
         double m_scale;
 
@@ -215,11 +244,13 @@ public:
     int aggregate(CaliperMetadataAccessInterface& db, const EntryList& list) override
     {
         Attribute count_attr = m_config->m_count_attr.get(db);
+        Attribute none_attr  = m_config->m_none_attr.get(db);
         for (const Entry& e : list)
             if (e.attribute() == count_attr.id()) {
                 m_count += e.value().to_uint();
                 return 1;
-            }
+            } else if (e.attribute() == none_attr.id())
+                return 0;
 
         ++m_count;
         return 1;
@@ -230,7 +261,8 @@ public:
         if (m_count > 0) {
             list.push_back(Entry(m_config->m_count_attr.get(db), Variant(m_count)));
             list.push_back(Entry(m_config->m_result_attr.get(db), Variant(m_config->get_scale() * m_count)));
-        }
+        } else
+            list.push_back(Entry(m_config->m_none_attr.get(db), Variant(true)));
     }
 
 private:
@@ -282,6 +314,11 @@ public:
         return apply_to_matching_entries(db, m_config->attr(), rec, [this](const Entry& e){ m_sum += e.value(); });
     }
 
+    void parent_aggregate(CaliperMetadataAccessInterface& db, const EntryList& rec) override
+    {
+        apply_to_target_entries(db, m_config->attr(), rec, [this](const Entry& e){ m_sum += e.value(); });
+    }
+
     void append_result(CaliperMetadataAccessInterface& db, EntryList& rec) override
     {
         if (m_sum)
@@ -341,6 +378,11 @@ public:
         return apply_to_matching_entries(db, m_config->sum_attr(), rec, [this](const Entry& e){ m_sum += e.value(); });
     }
 
+    void parent_aggregate(CaliperMetadataAccessInterface& db, const EntryList& rec) override
+    {
+        apply_to_target_entries(db, m_config->sum_attr(), rec, [this](const Entry& e){ m_sum += e.value(); });
+    }
+
     void append_result(CaliperMetadataAccessInterface& db, EntryList& rec) override
     {
         if (m_sum) {
@@ -585,6 +627,12 @@ public:
         return count;
     }
 
+    void parent_aggregate(CaliperMetadataAccessInterface& db, const EntryList& rec) override
+    {
+        apply_to_target_entries(db, m_config->m_tgt1, rec, [this](const Entry& e){ m_sum1 += e.value(); });
+        apply_to_target_entries(db, m_config->m_tgt2, rec, [this](const Entry& e){ m_sum2 += e.value(); });
+    }
+
     void append_result(CaliperMetadataAccessInterface& db, EntryList& rec) override
     {
         if (m_sum1)
@@ -674,10 +722,10 @@ public:
     void append_result(CaliperMetadataAccessInterface& db, EntryList& list) override
     {
         double total = m_config->get_total();
-        if (m_isum && total > 0.0) {
+        if (m_sum)
             list.push_back(Entry(m_config->sum_attr().derived_attr(db), Variant(m_sum)));
+        if (m_isum && total > 0.0)
             list.push_back(Entry(m_config->result_attr(db), Variant(100.0 * m_isum.to_double() / total)));
-        }
     }
 
 private:
-- 
2.43.0


From 5f97b5ecc27df1d52bd2d989640a70b9b77bc986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:26 +0000
Subject: [PATCH 024/110] fix: reading several inputs concurrently

CaliWriter could write a node twice, and an attribute node could be found
before the attribute was registered by name, so that records read by another
thread at that moment were aggregated without it. Do not dereference the null
pointer returned for invalid nodes.
---
 src/reader/CaliWriter.cpp        | 40 +++++++++++---------------------
 src/reader/CaliperMetadataDB.cpp | 13 +++++++----
 2 files changed, 21 insertions(+), 32 deletions(-)

diff --git a/src/reader/CaliWriter.cpp b/src/reader/CaliWriter.cpp
index 7b87667..bac3dbb 100644
--- a/src/reader/CaliWriter.cpp
+++ b/src/reader/CaliWriter.cpp
@@ -74,7 +74,6 @@ struct CaliWriter::CaliWriterImpl {
     std::mutex   m_os_lock;
 
     std::set<cali_id_t> m_written_nodes;
-    std::mutex          m_written_nodes_lock;
 
     std::size_t m_num_written;
 
@@ -82,15 +81,12 @@ struct CaliWriter::CaliWriterImpl {
 
     void recursive_write_node(const CaliperMetadataAccessInterface& db, cali_id_t id)
     {
+        // NOTE: We assume that m_os_lock is locked!
+
         if (id < 11) // don't write the hard-coded metadata nodes
             return;
-
-        {
-            std::lock_guard<std::mutex> g(m_written_nodes_lock);
-
-            if (m_written_nodes.count(id) > 0)
-                return;
-        }
+        if (m_written_nodes.count(id) > 0)
+            return;
 
         Node* node = db.node(id);
 
@@ -104,24 +100,18 @@ struct CaliWriter::CaliWriterImpl {
         if (parent && parent->id() != CALI_INV_ID)
             recursive_write_node(db, parent->id());
 
-        {
-            std::lock_guard<std::mutex> g(m_os_lock);
-
-            std::ostream* real_os = m_os.stream();
+        std::ostream* real_os = m_os.stream();
 
-            ::write_node_content(*real_os, node);
-            ++m_num_written;
-        }
-
-        {
-            std::lock_guard<std::mutex> g(m_written_nodes_lock);
+        ::write_node_content(*real_os, node);
+        ++m_num_written;
 
-            m_written_nodes.insert(id);
-        }
+        m_written_nodes.insert(id);
     }
 
     void write_entrylist(const CaliperMetadataAccessInterface& db, RecordKind kind, const std::vector<Entry>& rec)
     {
+        std::lock_guard<std::mutex> g(m_os_lock);
+
         // write node entries
 
         std::vector<Entry> ref_entries;
@@ -141,14 +131,10 @@ struct CaliWriter::CaliWriterImpl {
 
         // write the record
 
-        {
-            std::lock_guard<std::mutex> g(m_os_lock);
-
-            std::ostream* real_os = m_os.stream();
+        std::ostream* real_os = m_os.stream();
 
-            ::write_record_content(*real_os, kind, ref_entries, imm_entries);
-            ++m_num_written;
-        }
+        ::write_record_content(*real_os, kind, ref_entries, imm_entries);
+        ++m_num_written;
     }
 };
 
diff --git a/src/reader/CaliperMetadataDB.cpp b/src/reader/CaliperMetadataDB.cpp
index da4dfe6..843c6db 100644
--- a/src/reader/CaliperMetadataDB.cpp
+++ b/src/reader/CaliperMetadataDB.cpp
@@ -192,6 +192,12 @@ struct CaliperMetadataDB::CaliperMetadataDBImpl {
             parent = m_nodes[prnt_id];
         }
 
+        // A new attribute must be registered before others can find its node
+        std::unique_lock<std::mutex> attribute_guard(m_attribute_lock, std::defer_lock);
+
+        if (attr_id == Attribute::NAME_ATTR_ID)
+            attribute_guard.lock();
+
         Node* node     = nullptr;
         bool  new_node = false;
 
@@ -206,11 +212,8 @@ struct CaliperMetadataDB::CaliperMetadataDBImpl {
             }
         }
 
-        if (new_node && node->attribute() == Attribute::NAME_ATTR_ID) {
-            std::lock_guard<std::mutex> g(m_attribute_lock);
-
+        if (new_node && node->attribute() == Attribute::NAME_ATTR_ID)
             m_attributes.insert(std::make_pair(std::string(node->data().to_string()), node));
-        }
 
         return node;
     }
@@ -224,7 +227,7 @@ struct CaliperMetadataDB::CaliperMetadataDBImpl {
 
         Node* node = merge_node(node_id, attr_id, prnt_id, v_data);
 
-        if (node_id != node->id())
+        if (node && node_id != node->id())
             idmap.insert(std::make_pair(node_id, node->id()));
 
         return node;
-- 
2.43.0


From b58783bf79fae7143b6110b1ea1f9c24b5515395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:01 +0000
Subject: [PATCH 025/110] fix: tree formatter corrupted its tree when given
 records concurrently

---
 src/reader/TreeFormatter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reader/TreeFormatter.cpp b/src/reader/TreeFormatter.cpp
index 924f489..2f9742c 100644
--- a/src/reader/TreeFormatter.cpp
+++ b/src/reader/TreeFormatter.cpp
@@ -59,6 +59,7 @@ struct TreeFormatter::TreeFormatterImpl {
     std::vector<SortInfo> m_sort_info;
 
     std::mutex m_path_key_lock;
+    std::mutex m_tree_lock;
 
     int column_width(int base) const
     {
@@ -141,6 +142,8 @@ struct TreeFormatter::TreeFormatterImpl {
 
     void add(const CaliperMetadataAccessInterface& db, const EntryList& list)
     {
+        std::lock_guard<std::mutex> g(m_tree_lock);
+
         const SnapshotTreeNode* node = nullptr;
 
         if (m_use_nested) {
-- 
2.43.0


From da1dcd421251464711b92fcdd9122e7902d5a90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:26 +0000
Subject: [PATCH 026/110] fix: skip snapshot entries with unknown node or
 attribute ids in CaliReader

---
 src/reader/CaliReader.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/reader/CaliReader.cpp b/src/reader/CaliReader.cpp
index f1a4beb..6ca12e3 100644
--- a/src/reader/CaliReader.cpp
+++ b/src/reader/CaliReader.cpp
@@ -208,10 +208,18 @@ struct CaliReader::CaliReaderImpl {
         std::vector<Entry> rec;
         rec.reserve(refs.size() + std::min(attr.size(), data.size()));
 
+        // skip entries that refer to unknown nodes or attributes
+        auto add_entry = [this, &rec](const Entry& e) {
+            if (e.empty())
+                set_error("Unknown node or attribute ID in snapshot record");
+            else
+                rec.push_back(e);
+        };
+
         for (cali_id_t id : refs)
-            rec.push_back(db.merge_entry(id, idmap));
+            add_entry(db.merge_entry(id, idmap));
         for (size_t i = 0; i < std::min(attr.size(), data.size()); ++i)
-            rec.push_back(db.merge_entry(attr[i], data[i], idmap));
+            add_entry(db.merge_entry(attr[i], data[i], idmap));
 
         snap_proc(db, rec);
     }
-- 
2.43.0


From ef1ad4bfc0fd987ba99fe4b5be9b05330cb3f440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:26 +0000
Subject: [PATCH 027/110] fix: initialize selection and use_path in QuerySpec
 lists

---
 include/caliper/reader/QuerySpec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/caliper/reader/QuerySpec.h b/include/caliper/reader/QuerySpec.h
index 47d3a4a..c50ef95 100644
--- a/include/caliper/reader/QuerySpec.h
+++ b/include/caliper/reader/QuerySpec.h
@@ -29,13 +29,13 @@ struct QuerySpec {
             None,    ///< Take none
             All,     ///< Take all available
             List     ///< User-defined list
-        } selection; ///< Selection specification
+        } selection { Default }; ///< Selection specification
 
         /// \brief User-defined list
         std::vector<T> list;
 
         /// \brief Use path (main nested region hierarchy) attributes
-        bool use_path;
+        bool use_path { false };
     };
 
     /// \brief Describe function signatures in query specs
-- 
2.43.0


From 72206291c3c6446953e1a09c0b831681768d8cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:26 +0000
Subject: [PATCH 028/110] fix: report invalid numeric arguments in queries and
 formats instead of throwing

---
 src/common/SnapshotTextFormatter.cpp |  3 ++-
 src/reader/Aggregator.cpp            | 21 +++++++++++++++---
 src/reader/Preprocessor.cpp          | 32 ++++++++++++++++++++++------
 src/reader/UserFormatter.cpp         |  3 ++-
 4 files changed, 48 insertions(+), 11 deletions(-)

diff --git a/src/common/SnapshotTextFormatter.cpp b/src/common/SnapshotTextFormatter.cpp
index 4a1d427..a742967 100644
--- a/src/common/SnapshotTextFormatter.cpp
+++ b/src/common/SnapshotTextFormatter.cpp
@@ -9,6 +9,7 @@
 #include "caliper/common/CaliperMetadataAccessInterface.h"
 #include "caliper/common/Node.h"
 
+#include "StringConverter.h"
 #include "util/split.hpp"
 
 #include <algorithm>
@@ -70,7 +71,7 @@ struct cali::SnapshotTextFormatter::SnapshotTextFormatterImpl {
 
                 if (wfbegin >= 0 && wfend > wfbegin + 1) {
                     // we have a width specification field
-                    field.width = std::stoi(field_strings[wfbegin + 1]);
+                    field.width = std::max(StringConverter(field_strings[wfbegin + 1]).to_int(), 0);
 
                     if (wfbegin > 0)
                         apos = 0;
diff --git a/src/reader/Aggregator.cpp b/src/reader/Aggregator.cpp
index 7d55f31..f9342e1 100644
--- a/src/reader/Aggregator.cpp
+++ b/src/reader/Aggregator.cpp
@@ -12,6 +12,8 @@
 #include "caliper/common/Log.h"
 #include "caliper/common/Node.h"
 
+#include "../common/StringConverter.h"
+
 #include <algorithm>
 #include <cassert>
 #include <cstring>
@@ -37,6 +39,19 @@ std::size_t compute_key_hash(const std::vector<Entry>& key)
     return hash;
 }
 
+double parse_scale(const std::string& str)
+{
+    bool   ok  = false;
+    double val = cali::StringConverter(str).to_double(&ok);
+
+    if (!ok) {
+        Log(0).stream() << "Aggregator: invalid scale factor \"" << str << "\"" << std::endl;
+        return 1.0;
+    }
+
+    return val;
+}
+
 class CustomAttributeManager
 {
     std::string    m_name;
@@ -231,7 +246,7 @@ public:
 
         explicit Config(const std::string& scale_str)
             : m_count_attr { scale_str, "scount#", CALI_TYPE_UINT }
-            , m_scale { std::stod(scale_str) }
+            , m_scale { parse_scale(scale_str) }
         { }
 
         static AggregateKernelConfig* create(const std::vector<std::string>& cfg) { return new Config(cfg.front()); }
@@ -360,7 +375,7 @@ public:
             , m_inclusive { inclusive }
         {
             if (cfg.size() > 1)
-                m_scale = std::stod(cfg[1]);
+                m_scale = parse_scale(cfg[1]);
         }
 
         static AggregateKernelConfig* create(const std::vector<std::string>& cfg) { return new Config(cfg, false); }
@@ -601,7 +616,7 @@ public:
             , m_inclusive { is_inclusive }
         {
             if (cfg.size() > 2)
-                m_scale = std::stod(cfg[2]);
+                m_scale = parse_scale(cfg[2]);
         }
 
         static AggregateKernelConfig* create(const std::vector<std::string>& cfg)
diff --git a/src/reader/Preprocessor.cpp b/src/reader/Preprocessor.cpp
index c8161d7..2ae7702 100644
--- a/src/reader/Preprocessor.cpp
+++ b/src/reader/Preprocessor.cpp
@@ -15,6 +15,8 @@
 
 #include "caliper/common/cali_types.h"
 
+#include "../common/StringConverter.h"
+
 #include <cmath>
 #include <vector>
 #include <utility>
@@ -45,6 +47,19 @@ Variant get_value(
     return Variant();
 }
 
+double parse_number(const std::string& str, double default_val)
+{
+    bool   ok  = false;
+    double val = StringConverter(str).to_double(&ok);
+
+    if (!ok) {
+        Log(0).stream() << "Preprocessor: invalid number argument \"" << str << "\"" << std::endl;
+        return default_val;
+    }
+
+    return val;
+}
+
 class Kernel
 {
 public:
@@ -70,7 +85,7 @@ class ScaledRatioKernel : public Kernel
         : m_res_attr_name(def), m_nom_attr_name(args[0]), m_dnm_attr_name(args[1]), m_scale(1.0)
     {
         if (args.size() > 2)
-            m_scale = std::stod(args[2]);
+            m_scale = parse_number(args[2], m_scale);
     }
 
 public:
@@ -116,7 +131,7 @@ class ScaleKernel : public Kernel
     ScaleKernel(const std::string& def, const std::vector<std::string>& args)
         : m_res_attr_name(def), m_tgt_attr_name(args[0]), m_scale(1.0)
     {
-        m_scale = std::stod(args[1]);
+        m_scale = parse_number(args[1], m_scale);
     }
 
 public:
@@ -155,7 +170,7 @@ class TruncateKernel : public Kernel
         : m_res_attr_name(def), m_tgt_attr_name(args[0]), m_factor(1.0)
     {
         if (args.size() > 1)
-            m_factor = std::stod(args[1]);
+            m_factor = parse_number(args[1], m_factor);
     }
 
 public:
@@ -180,10 +195,15 @@ public:
 
         Variant v_res(res);
 
-        if (type == CALI_TYPE_INT)
-            v_res = cali_make_variant_from_int(static_cast<int>(res));
-        else if (type == CALI_TYPE_UINT)
+        if (type == CALI_TYPE_INT) {
+            if (!(fabs(res) < 9223372036854775808.0)) // not representable as int64
+                return;
+            v_res = cali_make_variant_from_int64(static_cast<int64_t>(res));
+        } else if (type == CALI_TYPE_UINT) {
+            if (!(fabs(res) < 18446744073709551616.0)) // not representable as uint64
+                return;
             v_res = cali_make_variant_from_uint(static_cast<uint64_t>(fabs(res)));
+        }
 
         rec.push_back(Entry(m_res_attr, Variant(v_res)));
     }
diff --git a/src/reader/UserFormatter.cpp b/src/reader/UserFormatter.cpp
index 1e65784..72e1a43 100644
--- a/src/reader/UserFormatter.cpp
+++ b/src/reader/UserFormatter.cpp
@@ -13,6 +13,7 @@
 #include "caliper/common/Node.h"
 #include "caliper/common/OutputStream.h"
 
+#include "../common/StringConverter.h"
 #include "../common/util/split.hpp"
 
 #include <algorithm>
@@ -81,7 +82,7 @@ struct UserFormatter::FormatImpl {
 
                 if (wfbegin >= 0 && wfend > wfbegin + 1) {
                     // width field specified
-                    field.width = stoi(field_strings[wfbegin + 1]);
+                    field.width = std::max(StringConverter(field_strings[wfbegin + 1]).to_int(), 0);
 
                     if (wfbegin > 0)
                         apos = 0;
-- 
2.43.0


From 61f6a4d3bd695899e7c83001ede921a869dbab5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:26 +0000
Subject: [PATCH 029/110] fix: let Variant integer sums wrap instead of
 overflowing

---
 src/common/Variant.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/common/Variant.cpp b/src/common/Variant.cpp
index 8c998c7..3378383 100644
--- a/src/common/Variant.cpp
+++ b/src/common/Variant.cpp
@@ -21,6 +21,17 @@
 
 using namespace cali;
 
+namespace
+{
+
+// Adds two integers, wrapping around on overflow
+inline int64_t int_add(int64_t a, int64_t b)
+{
+    return static_cast<int64_t>(static_cast<uint64_t>(a) + static_cast<uint64_t>(b));
+}
+
+} // namespace
+
 cali_id_t Variant::to_id(bool* okptr) const
 {
     bool      ok = false;
@@ -192,7 +203,7 @@ Variant& Variant::operator+= (const Variant& val)
             m_v.value.v_double += val.m_v.value.v_double;
             break;
         case CALI_TYPE_INT:
-            m_v.value.v_int += val.m_v.value.v_int;
+            m_v.value.v_int = int_add(m_v.value.v_int, val.m_v.value.v_int);
             break;
         case CALI_TYPE_UINT:
             m_v.value.v_uint += val.m_v.value.v_uint;
@@ -209,7 +220,7 @@ Variant& Variant::operator+= (const Variant& val)
             m_v.value.v_double += val.to_double();
             break;
         case CALI_TYPE_INT:
-            m_v.value.v_int += val.to_int64();
+            m_v.value.v_int = int_add(m_v.value.v_int, val.to_int64());
             break;
         case CALI_TYPE_UINT:
             m_v.value.v_uint += val.to_uint();
@@ -343,7 +354,7 @@ void Variant::update_minmaxsum(const Variant& val, Variant& min_val, Variant& ma
     case CALI_TYPE_INT:
         {
             int64_t i = val.m_v.value.v_int;
-            sum_val.m_v.value.v_int += i;
+            sum_val.m_v.value.v_int = int_add(sum_val.m_v.value.v_int, i);
             if (i < min_val.m_v.value.v_int)
                 min_val.m_v.value.v_int = i;
             else if (i > max_val.m_v.value.v_int)
-- 
2.43.0


From d6a7997f2036d4869cc677ef02132cc12f9bf7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:26 +0000
Subject: [PATCH 030/110] fix: avoid recursion over node hierarchies in
 CaliWriter, tree, and split JSON output

---
 src/reader/CaliWriter.cpp         | 54 ++++++++++++------
 src/reader/JsonSplitFormatter.cpp | 18 ++----
 src/reader/SnapshotTree.cpp       | 93 ++++++++++++++++++++-----------
 src/reader/TreeFormatter.cpp      | 48 +++++++++++-----
 4 files changed, 137 insertions(+), 76 deletions(-)

diff --git a/src/reader/CaliWriter.cpp b/src/reader/CaliWriter.cpp
index bac3dbb..3f269c1 100644
--- a/src/reader/CaliWriter.cpp
+++ b/src/reader/CaliWriter.cpp
@@ -79,33 +79,51 @@ struct CaliWriter::CaliWriterImpl {
 
     CaliWriterImpl(OutputStream& os) : m_os(os), m_num_written(0) {}
 
-    void recursive_write_node(const CaliperMetadataAccessInterface& db, cali_id_t id)
+    bool needs_writing(cali_id_t id) const
+    {
+        // don't write the hard-coded metadata nodes
+        return id >= 11 && id != CALI_INV_ID && m_written_nodes.count(id) == 0;
+    }
+
+    void write_node(const CaliperMetadataAccessInterface& db, cali_id_t id)
     {
         // NOTE: We assume that m_os_lock is locked!
 
-        if (id < 11) // don't write the hard-coded metadata nodes
-            return;
-        if (m_written_nodes.count(id) > 0)
-            return;
+        // Write the node's attribute and parent nodes before the node itself.
+        // Uses an explicit stack since node hierarchies can be very deep.
 
-        Node* node = db.node(id);
+        std::vector<cali_id_t> stack { id };
 
-        if (!node)
-            return;
+        while (!stack.empty()) {
+            id = stack.back();
 
-        recursive_write_node(db, node->attribute());
+            Node* node = needs_writing(id) ? db.node(id) : nullptr;
 
-        Node* parent = node->parent();
+            if (!node) {
+                stack.pop_back();
+                continue;
+            }
 
-        if (parent && parent->id() != CALI_INV_ID)
-            recursive_write_node(db, parent->id());
+            if (needs_writing(node->attribute()) && db.node(node->attribute())) {
+                stack.push_back(node->attribute());
+                continue;
+            }
 
-        std::ostream* real_os = m_os.stream();
+            Node* parent = node->parent();
 
-        ::write_node_content(*real_os, node);
-        ++m_num_written;
+            if (parent && needs_writing(parent->id())) {
+                stack.push_back(parent->id());
+                continue;
+            }
+
+            std::ostream* real_os = m_os.stream();
 
-        m_written_nodes.insert(id);
+            ::write_node_content(*real_os, node);
+            ++m_num_written;
+
+            m_written_nodes.insert(id);
+            stack.pop_back();
+        }
     }
 
     void write_entrylist(const CaliperMetadataAccessInterface& db, RecordKind kind, const std::vector<Entry>& rec)
@@ -121,10 +139,10 @@ struct CaliWriter::CaliWriterImpl {
 
         for (const Entry& e : rec) {
             if (e.is_reference()) {
-                recursive_write_node(db, e.node()->id());
+                write_node(db, e.node()->id());
                 ref_entries.push_back(e);
             } else if (e.is_immediate()) {
-                recursive_write_node(db, e.attribute());
+                write_node(db, e.attribute());
                 imm_entries.push_back(e);
             }
         }
diff --git a/src/reader/JsonSplitFormatter.cpp b/src/reader/JsonSplitFormatter.cpp
index ddca4c1..d488375 100644
--- a/src/reader/JsonSplitFormatter.cpp
+++ b/src/reader/JsonSplitFormatter.cpp
@@ -71,19 +71,6 @@ class Hierarchy
     std::mutex                  m_nodes_lock;
     std::vector<HierarchyNode*> m_nodes;
 
-    void recursive_delete(HierarchyNode* node)
-    {
-        HierarchyNode* child = node->first_child();
-
-        while (child) {
-            HierarchyNode* tmp = child->next_sibling();
-            recursive_delete(child);
-            child = tmp;
-        }
-
-        delete node;
-    }
-
 public:
 
     Hierarchy() : m_root(new HierarchyNode(CALI_INV_ID, "", "")) {}
@@ -91,7 +78,10 @@ public:
     ~Hierarchy()
     {
         // delete all nodes
-        recursive_delete(m_root);
+        for (HierarchyNode* node : m_nodes)
+            delete node;
+        m_nodes.clear();
+        delete m_root;
         m_root = nullptr;
     }
 
diff --git a/src/reader/SnapshotTree.cpp b/src/reader/SnapshotTree.cpp
index d9cb9a6..2d96250 100644
--- a/src/reader/SnapshotTree.cpp
+++ b/src/reader/SnapshotTree.cpp
@@ -22,22 +22,35 @@ Variant SnapshotTreeNode::min_val(const Attribute& key)
             return it->second;
     }
 
-    Variant val;
+    // Process the nodes in this subtree bottom-up. Uses an explicit list
+    // rather than recursion since the tree can be very deep.
 
-    for (const auto& rec : m_records) {
-        auto it = std::find_if(rec.begin(), rec.end(), [key](const std::pair<Attribute, Variant>& p) {
-            return p.first == key;
-        });
+    std::vector<SnapshotTreeNode*> nodes { this };
 
-        if (it != rec.end())
-            val = val ? std::min(val, (*it).second) : (*it).second;
-    }
+    for (size_t i = 0; i < nodes.size(); ++i)
+        for (SnapshotTreeNode* node = nodes[i]->first_child(); node; node = node->next_sibling())
+            if (node->m_v_min.count(key) == 0)
+                nodes.push_back(node);
+
+    for (auto nodeit = nodes.rbegin(); nodeit != nodes.rend(); ++nodeit) {
+        Variant val;
+
+        for (const auto& rec : (*nodeit)->m_records) {
+            auto it = std::find_if(rec.begin(), rec.end(), [key](const std::pair<Attribute, Variant>& p) {
+                return p.first == key;
+            });
+
+            if (it != rec.end())
+                val = val ? std::min(val, (*it).second) : (*it).second;
+        }
 
-    for (SnapshotTreeNode* node = first_child(); node; node = node->next_sibling())
-        val = val ? std::min(val, node->min_val(key)) : node->min_val(key);
+        for (SnapshotTreeNode* node = (*nodeit)->first_child(); node; node = node->next_sibling())
+            val = val ? std::min(val, node->m_v_min[key]) : node->m_v_min[key];
 
-    m_v_min[key] = val;
-    return val;
+        (*nodeit)->m_v_min[key] = val;
+    }
+
+    return m_v_min[key];
 }
 
 Variant SnapshotTreeNode::max_val(const Attribute& key)
@@ -48,22 +61,35 @@ Variant SnapshotTreeNode::max_val(const Attribute& key)
             return it->second;
     }
 
-    Variant val;
+    // Process the nodes in this subtree bottom-up. Uses an explicit list
+    // rather than recursion since the tree can be very deep.
 
-    for (const auto& rec : m_records) {
-        auto it = std::find_if(rec.begin(), rec.end(), [key](const std::pair<Attribute, Variant>& p) {
-            return p.first == key;
-        });
+    std::vector<SnapshotTreeNode*> nodes { this };
 
-        if (it != rec.end())
-            val = val ? std::max(val, (*it).second) : (*it).second;
-    }
+    for (size_t i = 0; i < nodes.size(); ++i)
+        for (SnapshotTreeNode* node = nodes[i]->first_child(); node; node = node->next_sibling())
+            if (node->m_v_max.count(key) == 0)
+                nodes.push_back(node);
+
+    for (auto nodeit = nodes.rbegin(); nodeit != nodes.rend(); ++nodeit) {
+        Variant val;
 
-    for (SnapshotTreeNode* node = first_child(); node; node = node->next_sibling())
-        val = val ? std::max(val, node->max_val(key)) : node->max_val(key);
+        for (const auto& rec : (*nodeit)->m_records) {
+            auto it = std::find_if(rec.begin(), rec.end(), [key](const std::pair<Attribute, Variant>& p) {
+                return p.first == key;
+            });
 
-    m_v_max[key] = val;
-    return val;
+            if (it != rec.end())
+                val = val ? std::max(val, (*it).second) : (*it).second;
+        }
+
+        for (SnapshotTreeNode* node = (*nodeit)->first_child(); node; node = node->next_sibling())
+            val = val ? std::max(val, node->m_v_max[key]) : node->m_v_max[key];
+
+        (*nodeit)->m_v_max[key] = val;
+    }
+
+    return m_v_max[key];
 }
 
 void SnapshotTreeNode::sort(const Attribute& key, bool ascending)
@@ -76,10 +102,10 @@ void SnapshotTreeNode::sort(const Attribute& key, bool ascending)
         auto l_it = std::find_if(lhs.begin(), lhs.end(), find_key);
         auto r_it = std::find_if(rhs.begin(), rhs.end(), find_key);
 
-        if (r_it == rhs.end())
-            return true;
         if (l_it == lhs.end())
             return false;
+        if (r_it == rhs.end())
+            return true;
 
         return ascending ? l_it->second < r_it->second : l_it->second > r_it->second;
     });
@@ -88,11 +114,16 @@ void SnapshotTreeNode::sort(const Attribute& key, bool ascending)
 struct SnapshotTree::SnapshotTreeImpl {
     SnapshotTreeNode* m_root;
 
-    void recursive_delete(SnapshotTreeNode* node)
+    void delete_tree(SnapshotTreeNode* root)
     {
-        if (node) {
-            recursive_delete(node->first_child());
-            recursive_delete(node->next_sibling());
+        std::vector<SnapshotTreeNode*> nodes { root };
+
+        while (!nodes.empty()) {
+            SnapshotTreeNode* node = nodes.back();
+            nodes.pop_back();
+
+            for (SnapshotTreeNode* child = node->first_child(); child; child = child->next_sibling())
+                nodes.push_back(child);
 
             delete node;
         }
@@ -176,7 +207,7 @@ struct SnapshotTree::SnapshotTreeImpl {
 
     SnapshotTreeImpl(const Attribute& attr, const Variant& value) : m_root(new SnapshotTreeNode(attr, value)) {}
 
-    ~SnapshotTreeImpl() { recursive_delete(m_root); }
+    ~SnapshotTreeImpl() { delete_tree(m_root); }
 
 }; // SnapshotTreeImpl
 
diff --git a/src/reader/TreeFormatter.cpp b/src/reader/TreeFormatter.cpp
index 2f9742c..6cd7792 100644
--- a/src/reader/TreeFormatter.cpp
+++ b/src/reader/TreeFormatter.cpp
@@ -228,7 +228,7 @@ struct TreeFormatter::TreeFormatterImpl {
         return nodes;
     }
 
-    void recursive_print_nodes(
+    void print_node(
         SnapshotTreeNode*             node,
         int                           level,
         const std::vector<Attribute>& attributes,
@@ -298,21 +298,44 @@ struct TreeFormatter::TreeFormatterImpl {
         }
 
         os << std::endl;
+    }
 
-        //
-        // recursively descend
-        //
+    void print_child_nodes(SnapshotTreeNode* root, const std::vector<Attribute>& attributes, std::ostream& os)
+    {
+        // Uses an explicit stack since the tree can be very deep
+
+        std::vector<std::pair<SnapshotTreeNode*, int>> stack { std::make_pair(root, -1) };
+
+        while (!stack.empty()) {
+            auto p = stack.back();
+            stack.pop_back();
+
+            if (p.second >= 0)
+                print_node(p.first, p.second, attributes, os);
 
-        for (auto child : get_sorted_child_nodes(node))
-            recursive_print_nodes(child, level + 1, attributes, os);
+            auto children = get_sorted_child_nodes(p.first);
+
+            for (auto it = children.rbegin(); it != children.rend(); ++it)
+                stack.push_back(std::make_pair(*it, p.second + 1));
+        }
     }
 
-    int recursive_max_path_label_width(const SnapshotTreeNode* node, int level)
+    int max_path_label_width(const SnapshotTreeNode* root)
     {
-        int len = 2 * level + node->label_value().to_string().length();
+        int len = 0;
+
+        std::vector<std::pair<const SnapshotTreeNode*, int>> stack { std::make_pair(root, 0) };
 
-        for (node = node->first_child(); node; node = node->next_sibling())
-            len = std::max(len, recursive_max_path_label_width(node, level + 1));
+        while (!stack.empty()) {
+            auto p = stack.back();
+            stack.pop_back();
+
+            int label_len = 2 * p.second + p.first->label_value().to_string().length();
+            len           = std::max(len, label_len);
+
+            for (const SnapshotTreeNode* node = p.first->first_child(); node; node = node->next_sibling())
+                stack.push_back(std::make_pair(node, p.second + 1));
+        }
 
         return len;
     }
@@ -367,7 +390,7 @@ struct TreeFormatter::TreeFormatterImpl {
 
             if (node)
                 for (node = node->first_child(); node; node = node->next_sibling())
-                    m_path_column_width = std::max(m_path_column_width, recursive_max_path_label_width(node, 0));
+                    m_path_column_width = std::max(m_path_column_width, max_path_label_width(node));
         }
 
         //
@@ -390,8 +413,7 @@ struct TreeFormatter::TreeFormatterImpl {
         // print tree nodes
         //
 
-        for (auto node : get_sorted_child_nodes(m_tree.root()))
-            recursive_print_nodes(node, 0, attributes, os);
+        print_child_nodes(m_tree.root(), attributes, os);
     }
 
     TreeFormatterImpl(const QuerySpec& spec)
-- 
2.43.0


From d7202e4849a3f611c0afb882eb3c655712f8e5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:13 +0000
Subject: [PATCH 031/110] fix: write valid JSON values and attribute names in
 JsonFormatter

---
 src/reader/JsonFormatter.cpp | 16 ++++++++++------
 src/reader/json_util.h       | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 42 insertions(+), 6 deletions(-)
 create mode 100644 src/reader/json_util.h

diff --git a/src/reader/JsonFormatter.cpp b/src/reader/JsonFormatter.cpp
index 2320728..16ca09a 100644
--- a/src/reader/JsonFormatter.cpp
+++ b/src/reader/JsonFormatter.cpp
@@ -12,6 +12,8 @@
 #include "caliper/common/Node.h"
 #include "caliper/common/OutputStream.h"
 
+#include "json_util.h"
+
 #include "../common/util/format_util.h"
 #include "../common/util/split.hpp"
 
@@ -141,9 +143,7 @@ struct JsonFormatter::JsonFormatterImpl {
                 if (key.empty())
                     continue;
 
-                cali_attr_type type = attr.type();
-
-                if (m_opt_quote_all || type == CALI_TYPE_STRING || type == CALI_TYPE_USR)
+                if (m_opt_quote_all || !util::is_json_value(e.value()))
                     quote_kvs[std::move(key)] = e.value().to_string();
                 else
                     noquote_kvs[std::move(key)] = e.value().to_string();
@@ -189,8 +189,11 @@ struct JsonFormatter::JsonFormatterImpl {
         if (m_selected.empty())
             attrs = db.get_all_attributes();
         else
-            for (const std::string& str : m_selected)
-                attrs.push_back(db.get_attribute(str));
+            for (const std::string& str : m_selected) {
+                Attribute attr = db.get_attribute(str);
+                if (attr)
+                    attrs.push_back(attr);
+            }
 
         // remove nested and hidden attributes
         if (!m_opt_sep_nested)
@@ -208,7 +211,8 @@ struct JsonFormatter::JsonFormatterImpl {
 
         int count = 0;
         for (const Attribute& a : attrs) {
-            os << (count++ > 0 ? ",\n" : "\n") << (m_opt_pretty ? "\t" : "") << '\"' << a.name() << "\": {";
+            os << (count++ > 0 ? ",\n" : "\n") << (m_opt_pretty ? "\t" : "");
+            util::write_json_esc_string(os << '\"', a.name()) << "\": {";
 
             // encode some properties
             os << "\"is_global\": " << (a.is_global() ? "true" : "false")
diff --git a/src/reader/json_util.h b/src/reader/json_util.h
new file mode 100644
index 0000000..a0fb57b
--- /dev/null
+++ b/src/reader/json_util.h
@@ -0,0 +1,32 @@
+// Copyright (c) 2024, Lawrence Livermore National Security, LLC.
+// See top-level LICENSE file for details.
+
+#pragma once
+
+#include "caliper/common/Variant.h"
+
+#include <cmath>
+
+namespace cali
+{
+namespace util
+{
+
+/// \brief Return true if the string representation of \a val is a valid
+///   JSON number or boolean, i.e. does not need to be quoted.
+inline bool is_json_value(const Variant& val)
+{
+    switch (val.type()) {
+    case CALI_TYPE_INT:
+    case CALI_TYPE_UINT:
+    case CALI_TYPE_BOOL:
+        return true;
+    case CALI_TYPE_DOUBLE:
+        return std::isfinite(val.to_double());
+    default:
+        return false;
+    }
+}
+
+} // namespace util
+} // namespace cali
-- 
2.43.0


From 8a44888dba203a637828308716a74256c0359bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:13 +0000
Subject: [PATCH 032/110] fix: valid numbers and separate hierarchies in
 JsonSplitFormatter

---
 src/reader/JsonSplitFormatter.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/reader/JsonSplitFormatter.cpp b/src/reader/JsonSplitFormatter.cpp
index d488375..fa23660 100644
--- a/src/reader/JsonSplitFormatter.cpp
+++ b/src/reader/JsonSplitFormatter.cpp
@@ -15,6 +15,8 @@
 
 #include "caliper/common/lockfree-tree.hpp"
 
+#include "json_util.h"
+
 #include "../common/util/format_util.h"
 
 #include <algorithm>
@@ -48,7 +50,10 @@ class Hierarchy
               m_column(column)
         {}
 
-        const std::string& label() const { return m_label; }
+        bool equals(const std::string& label, const std::string& column) const
+        {
+            return label == m_label && column == m_column;
+        }
 
         std::ostream& write_json(std::ostream& os) const
         {
@@ -94,7 +99,7 @@ public:
             HierarchyNode* parent = node;
             std::string    label  = e.value().to_string();
 
-            for (node = parent->first_child(); node && (label != node->label()); node = node->next_sibling())
+            for (node = parent->first_child(); node && !node->equals(label, column); node = node->next_sibling())
                 ;
 
             if (!node) {
@@ -246,13 +251,16 @@ struct JsonSplitFormatter::JsonSplitFormatterImpl {
     {
         std::vector<Entry> path;
 
-        for (const Entry& e : list)
+        for (const Entry& e : list) {
+            if (!e.is_reference())
+                continue;
             for (Node* node = e.node(); node && node->id() != CALI_INV_ID; node = node->parent())
                 for (const Attribute& a : path_attrs)
                     if (node->attribute() == a.id()) {
                         path.push_back(Entry(node));
                         break;
                     }
+        }
 
         std::reverse(path.begin(), path.end());
         cali_id_t id = m_hierarchy.get_id(path, column);
@@ -265,12 +273,10 @@ struct JsonSplitFormatter::JsonSplitFormatterImpl {
 
     void write_immediate_entry(std::ostream& os, const EntryList& list, const Attribute& attr)
     {
-        cali_attr_type type  = attr.type();
-        bool           quote = !(type == CALI_TYPE_INT || type == CALI_TYPE_UINT || type == CALI_TYPE_DOUBLE);
-
         for (const Entry& e : list)
             if (e.attribute() == attr.id()) {
-                if (quote)
+                // write numbers as is, quote everything else
+                if (attr.type() == CALI_TYPE_BOOL || !util::is_json_value(e.value()))
                     util::write_json_esc_string(os << "\"", e.value().to_string()) << "\"";
                 else
                     os << e.value().to_string();
-- 
2.43.0


From 97f47a575545b0c6786629ed641940614eb12189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:13 +0000
Subject: [PATCH 033/110] fix: keep indentation of single-character labels in
 tree output

---
 src/reader/TreeFormatter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reader/TreeFormatter.cpp b/src/reader/TreeFormatter.cpp
index 6cd7792..fd97575 100644
--- a/src/reader/TreeFormatter.cpp
+++ b/src/reader/TreeFormatter.cpp
@@ -244,7 +244,7 @@ struct TreeFormatter::TreeFormatterImpl {
             int width = column_width(m_path_column_width);
 
             std::string path_str;
-            path_str.append(std::min(2 * level, width - 2), ' ');
+            path_str.append(2 * level >= width ? width - 2 : 2 * level, ' ');
 
             if (2 * level >= width)
                 path_str.append("..");
@@ -262,7 +262,7 @@ struct TreeFormatter::TreeFormatterImpl {
                 int width = column_width(m_path_column_width);
 
                 std::string path_str;
-                path_str.append(std::min(2 * level, width - 2), ' ');
+                path_str.append(2 * level >= width ? width - 2 : 2 * level, ' ');
 
                 if (2 * level >= width)
                     path_str.append("..");
-- 
2.43.0


From a6d939061d74fda992fb0e84b63014ec8990f7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:13 +0000
Subject: [PATCH 034/110] fix: read values with blanks or line ends and empty
 values in the Python reader

---
 .../caliperreader/caliperstreamreader.py         | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/python/caliper-reader/caliperreader/caliperstreamreader.py b/python/caliper-reader/caliperreader/caliperstreamreader.py
index eee9a0e..f06ad9d 100644
--- a/python/caliper-reader/caliperreader/caliperstreamreader.py
+++ b/python/caliper-reader/caliperreader/caliperstreamreader.py
@@ -38,7 +38,9 @@ class CaliperStreamReader:
         """
 
         if isinstance(filename_or_stream, str):
-            with open(filename_or_stream) as f:
+            # Caliper strings can contain arbitrary characters: only '\n' ends a
+            # line, and keep bytes that are not valid UTF-8
+            with open(filename_or_stream, encoding='utf-8', errors='surrogateescape', newline='\n') as f:
                 for line in f:
                     self._process(line, process_record_fn)
         else:
@@ -65,6 +67,9 @@ class CaliperStreamReader:
 
 
     def _process(self, line, process_record_fn = None):
+        if line.rstrip('\n') == '':
+            return
+
         record = _read_cali_record(line)
 
         if not '__rec' in record:
@@ -129,11 +134,11 @@ def _read_cali_record(line):
     entry   = []
     string  = ""
 
-    iterator = iter(line.strip())
+    iterator = iter(line.rstrip('\n'))
 
     for c in iterator:
         if c == '\\':
-            c = next(iterator)
+            c = next(iterator, '')
             if c == 'n':
                 string += '\n'
             else:
@@ -149,8 +154,7 @@ def _read_cali_record(line):
         else:
             string += c
 
-    if len(string) > 0:
-        entry.append(string)
-        result[entry[0]] = entry[1:]
+    entry.append(string)
+    result[entry[0]] = entry[1:]
 
     return result
-- 
2.43.0


From ecac75ed62c358b9e736b205315ed7a63c3a48a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:13 +0000
Subject: [PATCH 035/110] fix: keep values from all references and all globals
 records in the Python reader

---
 .../caliperreader/caliperstreamreader.py             | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/python/caliper-reader/caliperreader/caliperstreamreader.py b/python/caliper-reader/caliperreader/caliperstreamreader.py
index f06ad9d..dde3298 100644
--- a/python/caliper-reader/caliperreader/caliperstreamreader.py
+++ b/python/caliper-reader/caliperreader/caliperstreamreader.py
@@ -82,7 +82,7 @@ class CaliperStreamReader:
         elif kind == 'ctx' and process_record_fn is not None:
             process_record_fn(self._expand_record(record))
         elif kind == 'globals':
-            self.globals = self._expand_record(record)
+            self.globals.update(self._expand_record(record))
 
 
     def _process_node_record(self, record):
@@ -99,7 +99,8 @@ class CaliperStreamReader:
 
         if 'ref' in record:
             for node_id in record['ref']:
-                result.update(self.db.nodes[int(node_id)].expand())
+                for key, val in self.db.nodes[int(node_id)].expand().items():
+                    result[key] = _combine(result[key], val) if key in result else val
 
         if 'attr' in record and 'data' in record:
             for attr_id, val in zip(record['attr'], record['data']):
@@ -110,6 +111,13 @@ class CaliperStreamReader:
         return result
 
 
+def _combine(a, b):
+    """ Combines the values of two references to the same attribute in a list
+    """
+
+    return (a if isinstance(a, list) else [ a ]) + (b if isinstance(b, list) else [ b ])
+
+
 def _read_cali_record(line):
     """ Splits comma-separated Caliper record line into constituent elements
 
-- 
2.43.0


From 943ebe287e981d99f93be4ead1342c93fc60b4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:13 +0000
Subject: [PATCH 036/110] fix: let the innermost metadata entry count in
 Attribute.metadata() of the Python reader

---
 python/caliper-reader/caliperreader/metadatadb.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/caliper-reader/caliperreader/metadatadb.py b/python/caliper-reader/caliperreader/metadatadb.py
index a926729..abd28b7 100644
--- a/python/caliper-reader/caliperreader/metadatadb.py
+++ b/python/caliper-reader/caliperreader/metadatadb.py
@@ -218,10 +218,15 @@ class Attribute:
             "type"      : self.attribute_type()
         }
 
+        entries = {}
+
         while node is not None:
-            result[node.attribute().name()] = node.data
+            # the first (innermost) entry counts, as in get()
+            entries.setdefault(node.attribute().name(), node.data)
             node = node.parent
 
+        result.update(entries)
+
         return result
 
 
-- 
2.43.0


From 08d6141b285b5c83f324eb96eb88f276ad823cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:06 +0000
Subject: [PATCH 037/110] fix: write all globals even if they exceed the
 snapshot record size

---
 src/caliper/Blackboard.h | 3 +++
 src/caliper/Caliper.cpp  | 6 ++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/caliper/Blackboard.h b/src/caliper/Blackboard.h
index 7729dad..2fb6984 100644
--- a/src/caliper/Blackboard.h
+++ b/src/caliper/Blackboard.h
@@ -96,6 +96,9 @@ public:
 
     size_t num_skipped_entries() const { return num_skipped; }
 
+    /// \brief Upper limit for the number of entries in snapshot()
+    constexpr static size_t max_snapshot_size() { return Nmax; }
+
     int count() const { return ucount.load(); }
 
     std::ostream& print_statistics(std::ostream& os) const;
diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index 33e72ad..3183dff 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -104,11 +104,13 @@ std::ostream& print_available_services(std::ostream& os)
 
 std::vector<Entry> get_globals_from_blackboard(Caliper* c, const Blackboard& blackboard, std::mutex& blackboard_lock)
 {
-    FixedSizeSnapshotRecord<SNAP_MAX> rec;
+    //   There can be more globals than we can fit in a regular snapshot record
+    std::vector<Entry> buf(Blackboard::max_snapshot_size());
+    SnapshotBuilder    rec(buf.size(), buf.data());
 
     {
         std::lock_guard<std::mutex> g(blackboard_lock);
-        blackboard.snapshot(rec.builder());
+        blackboard.snapshot(rec);
     }
 
     std::vector<Entry>       ret;
-- 
2.43.0


From d3942d6aa98ef49a0d8c181dfb8705bc0df0719d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:04 +0000
Subject: [PATCH 038/110] fix: reject out-of-range numbers when converting text
 to integers

---
 src/common/StringConverter.cpp | 7 +++++--
 src/common/Variant.cpp         | 9 ++++++---
 src/common/util/parse_util.h   | 8 ++++++--
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/common/StringConverter.cpp b/src/common/StringConverter.cpp
index 0a4e7b6..d4a3598 100644
--- a/src/common/StringConverter.cpp
+++ b/src/common/StringConverter.cpp
@@ -102,8 +102,11 @@ uint64_t cali::StringConverter::to_uint(bool* okptr, int base) const
     uint64_t res = 0;
 
     try {
-        res = std::stoull(m_str, nullptr, base);
-        ok  = true;
+        // stoull() accepts and wraps negative numbers
+        if (m_str.find('-') == std::string::npos) {
+            res = std::stoull(m_str, nullptr, base);
+            ok  = true;
+        }
     } catch (...) {
         ok = false;
     }
diff --git a/src/common/Variant.cpp b/src/common/Variant.cpp
index 3378383..3cebc73 100644
--- a/src/common/Variant.cpp
+++ b/src/common/Variant.cpp
@@ -13,6 +13,7 @@
 
 #include <algorithm>
 #include <cctype>
+#include <cerrno>
 #include <cstdlib>
 #include <cstring>
 #include <iomanip>
@@ -121,9 +122,11 @@ Variant Variant::from_string(cali_attr_type type, const char* str)
         return Variant(CALI_TYPE_STRING, str, strlen(str));
     case CALI_TYPE_INT:
         {
-            char*     str_end = nullptr;
-            long long ll      = std::strtoll(str, &str_end, 10);
-            return str != str_end ? Variant(cali_make_variant_from_int64(ll)) : Variant();
+            char* str_end   = nullptr;
+            errno           = 0;
+            long long ll    = std::strtoll(str, &str_end, 10);
+            bool      valid = (str != str_end && errno != ERANGE);
+            return valid ? Variant(cali_make_variant_from_int64(ll)) : Variant();
         }
     case CALI_TYPE_ADDR:
         {
diff --git a/src/common/util/parse_util.h b/src/common/util/parse_util.h
index 8beedd2..0185803 100644
--- a/src/common/util/parse_util.h
+++ b/src/common/util/parse_util.h
@@ -40,8 +40,12 @@ inline std::pair<bool, uint64_t> str_to_uint64(const char* str)
 {
     uint64_t    ret = 0;
     const char* p   = str;
-    for (; *p >= '0' && *p <= '9'; ++p)
-        ret = ret * 10 + static_cast<uint64_t>(*p - '0');
+    for (; *p >= '0' && *p <= '9'; ++p) {
+        uint64_t digit = static_cast<uint64_t>(*p - '0');
+        if (ret > (UINT64_MAX - digit) / 10)
+            return std::make_pair(false, static_cast<uint64_t>(0)); // out of range
+        ret = ret * 10 + digit;
+    }
     return std::make_pair(p != str, ret);
 }
 
-- 
2.43.0


From 2830fb0cf03370faad8a0dcde91e1f574b595934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:54 +0000
Subject: [PATCH 039/110] fix: do not compare or copy through null pointers of
 empty strings

---
 include/caliper/common/Variant.h |  2 +-
 src/common/cali_variant.c        | 14 +++++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/caliper/common/Variant.h b/include/caliper/common/Variant.h
index 7f92b21..aa768ba 100644
--- a/include/caliper/common/Variant.h
+++ b/include/caliper/common/Variant.h
@@ -78,7 +78,7 @@ public:
     {
         Variant to(*this);
 
-        if (has_unmanaged_data())
+        if (has_unmanaged_data() && size() > 0)
             to.m_v.value.unmanaged_ptr = memcpy(ptr, m_v.value.unmanaged_const_ptr, size());
 
         return to;
diff --git a/src/common/cali_variant.c b/src/common/cali_variant.c
index b5238e2..5ec4ada 100644
--- a/src/common/cali_variant.c
+++ b/src/common/cali_variant.c
@@ -470,7 +470,11 @@ int cali_variant_compare(cali_variant_t lhs, cali_variant_t rhs)
             {
                 int lhssize = (int) _EXTRACT_SIZE(lhs.type_and_size);
                 int rhssize = (int) _EXTRACT_SIZE(rhs.type_and_size);
-                int cmp = memcmp(lhs.value.unmanaged_const_ptr, rhs.value.unmanaged_const_ptr, imin(lhssize, rhssize));
+                int len     = imin(lhssize, rhssize);
+                int cmp     = 0;
+
+                if (len > 0)
+                    cmp = memcmp(lhs.value.unmanaged_const_ptr, rhs.value.unmanaged_const_ptr, len);
 
                 return (cmp ? cmp : (lhssize - rhssize));
             }
@@ -478,7 +482,11 @@ int cali_variant_compare(cali_variant_t lhs, cali_variant_t rhs)
             {
                 int lhssize = (int) _EXTRACT_SIZE(lhs.type_and_size);
                 int rhssize = (int) _EXTRACT_SIZE(rhs.type_and_size);
-                int cmp = memcmp(lhs.value.unmanaged_const_ptr, rhs.value.unmanaged_const_ptr, imin(lhssize, rhssize));
+                int len     = imin(lhssize, rhssize);
+                int cmp     = 0;
+
+                if (len > 0)
+                    cmp = memcmp(lhs.value.unmanaged_const_ptr, rhs.value.unmanaged_const_ptr, len);
 
                 return (cmp ? cmp : (lhssize - rhssize));
             }
@@ -517,7 +525,7 @@ bool _cali_variant_value_eq(cali_variant_t lhs, cali_variant_t rhs)
     case CALI_TYPE_USR:
     case CALI_TYPE_STRING:
         {
-            if (lhs.value.unmanaged_const_ptr == rhs.value.unmanaged_const_ptr)
+            if (lhs.value.unmanaged_const_ptr == rhs.value.unmanaged_const_ptr || _EXTRACT_SIZE(lhs.type_and_size) == 0)
                 return true;
             else
                 return 0
-- 
2.43.0


From fac2ba4dc26a1e66236a1e2a7f284626d72a3b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:29 +0000
Subject: [PATCH 040/110] fix: initialize only once when several threads use
 Caliper for the first time

---
 src/caliper/Caliper.cpp | 48 +++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index 3183dff..f29ba2b 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -299,8 +299,9 @@ struct Caliper::ThreadData {
 struct Caliper::GlobalData {
     // --- static data
 
-    static volatile sig_atomic_t s_init_lock;
-    static std::mutex            s_init_mutex;
+    // initialization state. 0: initialized, 1: not yet initialized, 2: released
+    static std::atomic<int> s_init_lock;
+    static std::mutex       s_init_mutex;
 
     static const ConfigSet::Entry s_configdata[];
 
@@ -442,7 +443,7 @@ struct Caliper::GlobalData {
 
                 if (t_ptr->is_initial_thread) {
                     c.finalize();
-                    delete gObj.g_ptr;
+                    delete gObj.g_ptr.load();
                 } else {
                     c.release_thread();
                 }
@@ -455,7 +456,7 @@ struct Caliper::GlobalData {
     //   S_GObject holds a pointer to our global data. Also, its destructor
     // serves as finalization trigger, together with S_TLSObject above.
     struct S_GObject {
-        GlobalData* g_ptr;
+        std::atomic<GlobalData*> g_ptr;
 
         // No constructor: Could overwrite existing Caliper object if Caliper
         // is initialized somewhere before this static constructor runs.
@@ -470,7 +471,7 @@ struct Caliper::GlobalData {
                 Caliper c(g_ptr, tObj.t_ptr, false);
 
                 c.finalize();
-                delete g_ptr;
+                delete g_ptr.load();
             }
 
             g_ptr = nullptr;
@@ -483,8 +484,8 @@ struct Caliper::GlobalData {
 
 // --- static member initialization
 
-volatile sig_atomic_t Caliper::GlobalData::s_init_lock = 1;
-std::mutex            Caliper::GlobalData::s_init_mutex;
+std::atomic<int> Caliper::GlobalData::s_init_lock { 1 };
+std::mutex       Caliper::GlobalData::s_init_mutex;
 
 Caliper::GlobalData::S_GObject                Caliper::GlobalData::gObj;
 thread_local Caliper::GlobalData::S_TLSObject Caliper::GlobalData::tObj;
@@ -1467,22 +1468,24 @@ Caliper Caliper::instance()
     GlobalData* gPtr = nullptr;
     ThreadData* tPtr = nullptr;
 
-    if (GlobalData::s_init_lock == 0) {
-        gPtr = GlobalData::gObj.g_ptr;
-        tPtr = GlobalData::tObj.t_ptr;
-    } else {
-        if (GlobalData::s_init_lock == 2)
-            // Caliper had been initialized previously; we're past the static destructor
-            return Caliper(nullptr, nullptr, true);
+    const int init_state = GlobalData::s_init_lock;
 
+    if (init_state == 2)
+        // Caliper had been initialized previously; we're past the static destructor
+        return Caliper(nullptr, nullptr, true);
+
+    //   The thread that is initializing Caliper can use the instance object
+    // once its thread data is there. Other threads must wait until it is done.
+    if (init_state == 1 && !GlobalData::tObj.t_ptr) {
         std::lock_guard<std::mutex> g(GlobalData::s_init_mutex);
 
-        Log::init();
+        // Another thread may have initialized (and even released) Caliper in the meantime
+        if (GlobalData::s_init_lock == 2)
+            return Caliper(nullptr, nullptr, true);
 
-        GlobalData::gObj.g_ptr = nullptr;
-        GlobalData::tObj.t_ptr = nullptr;
+        if (GlobalData::s_init_lock == 1) {
+            Log::init();
 
-        if (!GlobalData::gObj.g_ptr) {
             tPtr = new ThreadData(true /* is_initial_thread */);
             gPtr = new GlobalData(tPtr);
 
@@ -1491,13 +1494,16 @@ Caliper Caliper::instance()
             gPtr->add_thread_data(tPtr);
             gPtr->init();
 
-            GlobalData::s_init_lock = 0;
-
             // now we can use Caliper::instance()
             ::make_default_channel();
+
+            GlobalData::s_init_lock = 0;
         }
     }
 
+    gPtr = GlobalData::gObj.g_ptr;
+    tPtr = GlobalData::tObj.t_ptr;
+
     if (!tPtr) {
         tPtr = gPtr->add_thread_data(new ThreadData(false /* is_initial_thread */));
         Caliper c(gPtr, tPtr, false);
@@ -1525,7 +1531,7 @@ void Caliper::release()
 
     if (c) {
         c.finalize();
-        delete GlobalData::gObj.g_ptr;
+        delete GlobalData::gObj.g_ptr.load();
         GlobalData::tObj.t_ptr = nullptr;
     }
 }
-- 
2.43.0


From 78b69b259527521704c8b516d2c9948a6ae8a3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:17 +0000
Subject: [PATCH 041/110] fix: publish context tree nodes with acquire
 semantics when walking the tree

---
 include/caliper/common/lockfree-tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/caliper/common/lockfree-tree.hpp b/include/caliper/common/lockfree-tree.hpp
index 74e1892..beac1a3 100644
--- a/include/caliper/common/lockfree-tree.hpp
+++ b/include/caliper/common/lockfree-tree.hpp
@@ -80,7 +80,7 @@ public:
 
     T* parent() const { return node(m_me).parent; }
 
-    T* first_child() const { return node(m_me).head.load(std::memory_order_relaxed); }
+    T* first_child() const { return node(m_me).head.load(std::memory_order_acquire); }
 
     T* next_sibling() const { return node(m_me).next; }
 
-- 
2.43.0


From 610ad3591e62a4f2a4d065677a11c673aa930613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:17 +0000
Subject: [PATCH 042/110] fix: replace the list of active channels instead of
 modifying it while threads use it

---
 src/caliper/Caliper.cpp | 112 ++++++++++++++++++++++++++++++----------
 1 file changed, 85 insertions(+), 27 deletions(-)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index f29ba2b..c9d03b0 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -163,9 +163,9 @@ void make_default_channel()
 struct cali::ChannelBody {
     static const ConfigSet::Entry s_configdata[];
 
-    cali_id_t   id;
-    std::string name;
-    bool        is_active;
+    cali_id_t         id;
+    std::string       name;
+    std::atomic<bool> is_active;
 
     RuntimeConfig   config;
     Channel::Events events; ///< callbacks
@@ -317,7 +317,16 @@ struct Caliper::GlobalData {
     std::mutex process_blackboard_lock;
 
     std::vector<Channel> all_channels;
-    std::vector<Channel> active_channels;
+
+    //   The list of active channels is replaced, not modified, when a channel is
+    // (de)activated, because other threads may be iterating over it. We keep
+    // all lists in active_channel_lists (protected by active_channels_lock)
+    // to reuse them; the ones with a deleted channel are removed with it.
+    typedef std::vector<Channel> ChannelList;
+
+    std::atomic<ChannelList*>                 active_channels;
+    std::vector<std::unique_ptr<ChannelList>> active_channel_lists;
+    std::mutex                                active_channels_lock;
 
     size_t max_active_channels;
 
@@ -326,8 +335,11 @@ struct Caliper::GlobalData {
 
     // --- constructor
 
-    GlobalData(ThreadData* sT) : attribute_default_scope { CALI_ATTR_SCOPE_THREAD }, max_active_channels { 0 }
+    GlobalData(ThreadData* sT)
+        : attribute_default_scope { CALI_ATTR_SCOPE_THREAD }, active_channels { nullptr }, max_active_channels { 0 }
     {
+        set_active_channels(ChannelList());
+
         // put the attribute [name,type,prop] attributes in the map
 
         Attribute name_attr = Attribute::make_attribute(sT->tree.node(Attribute::NAME_ATTR_ID));
@@ -365,6 +377,61 @@ struct Caliper::GlobalData {
         Log::fini();
     }
 
+    // Needs active_channels_lock, except in the constructor
+    void set_active_channels(const ChannelList& list)
+    {
+        auto it = std::find_if(
+            active_channel_lists.begin(),
+            active_channel_lists.end(),
+            [&list](const std::unique_ptr<ChannelList>& p) { return *p == list; }
+        );
+
+        if (it == active_channel_lists.end())
+            it = active_channel_lists.emplace(it, new ChannelList(list));
+
+        active_channels     = it->get();
+        max_active_channels = std::max(max_active_channels, list.size());
+    }
+
+    void add_active_channel(const Channel& channel)
+    {
+        std::lock_guard<std::mutex> g(active_channels_lock);
+        ChannelList                 list(*active_channels);
+
+        if (std::find(list.begin(), list.end(), channel) == list.end()) {
+            list.push_back(channel);
+            set_active_channels(list);
+        }
+    }
+
+    void remove_active_channel(const Channel& channel)
+    {
+        std::lock_guard<std::mutex> g(active_channels_lock);
+        ChannelList                 list(*active_channels);
+
+        auto it = std::find(list.begin(), list.end(), channel);
+        if (it != list.end()) {
+            list.erase(it);
+            set_active_channels(list);
+        }
+    }
+
+    // Remove the channel from the active channels and release all references to it.
+    // Not threadsafe, like the deletion of channels.
+    void release_active_channel(const Channel& channel)
+    {
+        remove_active_channel(channel);
+
+        std::lock_guard<std::mutex> g(active_channels_lock);
+
+        auto it = std::remove_if(
+            active_channel_lists.begin(),
+            active_channel_lists.end(),
+            [&channel](const std::unique_ptr<ChannelList>& p) { return std::find(p->begin(), p->end(), channel) != p->end(); }
+        );
+        active_channel_lists.erase(it, active_channel_lists.end());
+    }
+
     void parse_attribute_config(const ConfigSet& config)
     {
         auto preset_cfg = config.get("attribute_properties").to_stringlist();
@@ -796,14 +863,14 @@ void Caliper::memory_region_begin(
     const Variant*   extra_vals
 )
 {
-    for (auto& channel : sG->active_channels)
+    for (auto& channel : *sG->active_channels)
         memory_region_begin(channel.body(), ptr, label, elem_size, ndim, dims, nextra, extra_attrs, extra_vals);
 }
 
 /// Dispatch memory region annotation end across all active channels
 void Caliper::memory_region_end(const void* ptr)
 {
-    for (auto& channel : sG->active_channels)
+    for (auto& channel : *sG->active_channels)
         memory_region_end(channel.body(), ptr);
 }
 
@@ -960,7 +1027,7 @@ void Caliper::begin(const Attribute& attr, const Variant& data)
 
     // invoke callbacks
     if (run_events) {
-        for (auto& channel : sG->active_channels) {
+        for (auto& channel : *sG->active_channels) {
             ChannelBody* chB = channel.body();
             chB->events.pre_begin_evt(this, chB, attr, data);
         }
@@ -975,7 +1042,7 @@ void Caliper::begin(const Attribute& attr, const Variant& data)
 
     // invoke callbacks
     if (run_events) {
-        for (auto& channel : sG->active_channels) {
+        for (auto& channel : *sG->active_channels) {
             ChannelBody* chB = channel.body();
             chB->events.post_begin_evt(this, chB, attr, data);
         }
@@ -1012,7 +1079,7 @@ void Caliper::end(const Attribute& attr)
 
     // invoke callbacks
     if (run_events) {
-        for (auto& channel : sG->active_channels) {
+        for (auto& channel : *sG->active_channels) {
             ChannelBody* chB = channel.body();
             chB->events.pre_end_evt(this, chB, attr, current.entry.value());
         }
@@ -1057,7 +1124,7 @@ void Caliper::end_with_value_check(const Attribute& attr, const Variant& data)
 
     // invoke callbacks
     if (run_events) {
-        for (auto& channel : sG->active_channels) {
+        for (auto& channel : *sG->active_channels) {
             ChannelBody* chB = channel.body();
             chB->events.pre_end_evt(this, chB, attr, current.entry.value());
         }
@@ -1085,7 +1152,7 @@ void Caliper::set(const Attribute& attr, const Variant& data)
 
     // invoke callbacks
     if (run_events) {
-        for (auto& channel : sG->active_channels) {
+        for (auto& channel : *sG->active_channels) {
             ChannelBody* chB = channel.body();
             chB->events.pre_set_evt(this, chB, attr, data);
         }
@@ -1103,7 +1170,7 @@ void Caliper::async_event(SnapshotView info)
 {
     std::lock_guard<::siglock> g(sT->lock);
 
-    for (auto& channel : sG->active_channels)
+    for (auto& channel : *sG->active_channels)
         channel.mP->events.async_event(this, channel.body(), info);
 }
 
@@ -1401,10 +1468,9 @@ void Caliper::delete_channel(Channel& channel)
 
     Log(1).stream() << "Releasing channel " << channel.name() << std::endl;
 
-    auto it = std::find(sG->active_channels.begin(), sG->active_channels.end(), channel);
-    if (it != sG->active_channels.end())
-        sG->active_channels.erase(it);
-    it = std::find(sG->all_channels.begin(), sG->all_channels.end(), channel);
+    sG->release_active_channel(channel);
+
+    auto it = std::find(sG->all_channels.begin(), sG->all_channels.end(), channel);
     if (it != sG->all_channels.end())
         sG->all_channels.erase(it);
 
@@ -1414,20 +1480,12 @@ void Caliper::delete_channel(Channel& channel)
 void Caliper::activate_channel(Channel& channel)
 {
     channel.mP->is_active = true;
-
-    auto it = std::find(sG->active_channels.begin(), sG->active_channels.end(), channel);
-    if (it == sG->active_channels.end())
-        sG->active_channels.emplace_back(channel);
-
-    sG->max_active_channels = std::max(sG->max_active_channels, sG->active_channels.size());
+    sG->add_active_channel(channel);
 }
 
 void Caliper::deactivate_channel(Channel& channel)
 {
-    auto it = std::find(sG->active_channels.begin(), sG->active_channels.end(), channel);
-    if (it != sG->active_channels.end())
-        sG->active_channels.erase(it);
-
+    sG->remove_active_channel(channel);
     channel.mP->is_active = false;
 }
 
-- 
2.43.0


From 2074e0c0b0f2c3626509f2fb9d8378179bdfe1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:40 +0000
Subject: [PATCH 043/110] fix: make context node lookup safe while other
 threads add nodes

---
 src/caliper/MetadataTree.cpp | 13 +++++++++----
 src/caliper/MetadataTree.h   |  8 +++++---
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/caliper/MetadataTree.cpp b/src/caliper/MetadataTree.cpp
index 38b5526..d195fff 100644
--- a/src/caliper/MetadataTree.cpp
+++ b/src/caliper/MetadataTree.cpp
@@ -116,7 +116,6 @@ bool MetadataTree::have_free_nodeblock(size_t n)
         m_nodeblock = g->node_blocks + block_index;
 
         m_nodeblock->chunk = chunk;
-        m_nodeblock->index = 0;
 
         ++m_num_blocks;
     }
@@ -171,11 +170,13 @@ Node* MetadataTree::create_path(const Attribute& attr, size_t n, const Variant*
             ptr += size + (align - (size + 1) % align);
         }
 
-        size_t index = m_nodeblock->index++;
+        size_t index = m_nodeblock->index;
 
         node = new (m_nodeblock->chunk + index)
             Node((m_nodeblock - g->node_blocks) * g->nodes_per_block + index, attr.id(), Variant(type, dptr, size));
 
+        m_nodeblock->index = index + 1;
+
         if (parent)
             parent->append(node);
 
@@ -199,12 +200,14 @@ Node* MetadataTree::create_child(const Attribute& attr, const Variant& value, No
     if (value.has_unmanaged_data())
         ptr = m_mempool.allocate(value.size() + 1 /* ensure 0-padding so we can safely hand out string ptrs */, alignof(uint64_t) /* blobs may hold ids */);
 
-    size_t      index = m_nodeblock->index++;
+    size_t      index = m_nodeblock->index;
     GlobalData* g     = mG.load();
 
     Node* node = new (m_nodeblock->chunk + index)
         Node((m_nodeblock - g->node_blocks) * g->nodes_per_block + index, attr.id(), value.copy(ptr));
 
+    m_nodeblock->index = index + 1;
+
     if (parent)
         parent->append(node);
 
@@ -258,11 +261,13 @@ Node* MetadataTree::get_or_copy_node(const Node* from, Node* parent)
         if (!have_free_nodeblock(1))
             return nullptr;
 
-        size_t index = m_nodeblock->index++;
+        size_t index = m_nodeblock->index;
 
         node = new (m_nodeblock->chunk + index)
             Node((m_nodeblock - g->node_blocks) * g->nodes_per_block + index, from->attribute(), from->data());
 
+        m_nodeblock->index = index + 1;
+
         parent->append(node);
 
         ++m_num_nodes;
diff --git a/src/caliper/MetadataTree.h b/src/caliper/MetadataTree.h
index e847fa2..32f0e7e 100644
--- a/src/caliper/MetadataTree.h
+++ b/src/caliper/MetadataTree.h
@@ -22,9 +22,11 @@ namespace internal
 
 class MetadataTree
 {
+    //   Only the owning thread adds nodes to a block. It increments the index
+    // once the node is complete, so that other threads can look up nodes.
     struct NodeBlock {
-        Node*  chunk;
-        size_t index;
+        Node*               chunk { nullptr };
+        std::atomic<size_t> index { 0 };
     };
 
     struct GlobalData {
@@ -102,7 +104,7 @@ public:
         size_t block = id / g->nodes_per_block;
         size_t index = id % g->nodes_per_block;
 
-        if (block >= g->num_blocks || index >= g->node_blocks[block].index)
+        if (block >= g->num_blocks || index >= g->node_blocks[block].index.load(std::memory_order_acquire))
             return nullptr;
 
         return g->node_blocks[block].chunk + index;
-- 
2.43.0


From ac67c2d1062c8d1961a65f97655566c751f7b334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:41 +0000
Subject: [PATCH 044/110] fix: stay within the node blocks with long paths and
 small block sizes

---
 src/caliper/MetadataTree.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/caliper/MetadataTree.cpp b/src/caliper/MetadataTree.cpp
index d195fff..319c72f 100644
--- a/src/caliper/MetadataTree.cpp
+++ b/src/caliper/MetadataTree.cpp
@@ -25,8 +25,9 @@ MetadataTree::GlobalData::GlobalData(MemoryPool& pool)
       node_blocks(0),
       g_mempool(pool)
 {
-    num_blocks      = config.get("num_blocks").to_uint();
-    nodes_per_block = std::min<uint64_t>(config.get("nodes_per_block").to_uint(), 256);
+    // The first block must have space for the bootstrap nodes
+    num_blocks      = std::max<uint64_t>(config.get("num_blocks").to_uint(), 1);
+    nodes_per_block = std::min<uint64_t>(std::max<uint64_t>(config.get("nodes_per_block").to_uint(), 16), 256);
 
     node_blocks = new NodeBlock[num_blocks];
 
@@ -129,11 +130,6 @@ bool MetadataTree::have_free_nodeblock(size_t n)
 
 Node* MetadataTree::create_path(const Attribute& attr, size_t n, const Variant* data, Node* parent = nullptr)
 {
-    // Get a node block with sufficient free space
-
-    if (!have_free_nodeblock(n))
-        return 0;
-
     // Calculate and allocate required memory
 
     const size_t align     = 8;
@@ -162,6 +158,11 @@ Node* MetadataTree::create_path(const Attribute& attr, size_t n, const Variant*
     GlobalData* g = mG.load();
 
     for (size_t i = 0; i < n; ++i) {
+        // Get a node block with free space. The path may span multiple blocks.
+
+        if (!have_free_nodeblock(1))
+            return nullptr;
+
         const void* dptr { data[i].data() };
         size_t      size { data[i].size() };
 
-- 
2.43.0


From bff7b72c2d510f0896b40b702afb6663a903db11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:39 +0000
Subject: [PATCH 045/110] fix: finalize at program exit, not when the first
 thread to use Caliper ends

---
 src/caliper/Caliper.cpp | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index c9d03b0..9432bdd 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -31,6 +31,7 @@
 #include <map>
 #include <memory>
 #include <mutex>
+#include <thread>
 #include <vector>
 
 #define SNAP_MAX 120
@@ -254,11 +255,9 @@ struct Caliper::ThreadData {
     // version of the last process blackboard snapshot
     int process_bb_count;
 
-    bool is_initial_thread;
     bool stack_error;
 
-    ThreadData(bool initial_thread = false)
-        : process_bb_count(-1), is_initial_thread(initial_thread), stack_error(false)
+    ThreadData() : process_bb_count(-1), stack_error(false)
     {}
 
     ~ThreadData()
@@ -493,9 +492,10 @@ struct Caliper::GlobalData {
     // thread-local data. This is for lookup only, GlobalData owns all
     // ThreadData objects. The object also notifies us of thread destruction
     // via its destructor.
-    //   In addition, the destructor for the initial thread object serves as
+    //   In addition, the destructor for the main thread's object serves as
     // finalization trigger on program exit, together with S_GObject below.
-    // The destruction order for thread-local and regular static objects is
+    // Other threads may end long before the program does, even if they were
+    // the first to use Caliper. The destruction order for thread-local and regular static objects is
     // undefined, so whoever is destroyed first triggers finalization.
     struct S_TLSObject {
         ThreadData* t_ptr;
@@ -508,7 +508,7 @@ struct Caliper::GlobalData {
             if (t_ptr && s_init_lock == 0) {
                 Caliper c(gObj.g_ptr, t_ptr, false);
 
-                if (t_ptr->is_initial_thread) {
+                if (std::this_thread::get_id() == s_main_thread_id) {
                     c.finalize();
                     delete gObj.g_ptr.load();
                 } else {
@@ -535,7 +535,12 @@ struct Caliper::GlobalData {
         {
             // Only use if we're still active
             if (g_ptr && s_init_lock == 0) {
-                Caliper c(g_ptr, tObj.t_ptr, false);
+                // This thread's data may have been released already, or it never used Caliper
+                ThreadData* t_ptr = tObj.t_ptr;
+                if (!t_ptr)
+                    t_ptr = g_ptr.load()->add_thread_data(new ThreadData);
+
+                Caliper c(g_ptr, t_ptr, false);
 
                 c.finalize();
                 delete g_ptr.load();
@@ -547,6 +552,9 @@ struct Caliper::GlobalData {
 
     static S_GObject                gObj;
     static thread_local S_TLSObject tObj;
+
+    // the thread that loads Caliper, typically the main thread
+    static const std::thread::id s_main_thread_id;
 };
 
 // --- static member initialization
@@ -554,6 +562,8 @@ struct Caliper::GlobalData {
 std::atomic<int> Caliper::GlobalData::s_init_lock { 1 };
 std::mutex       Caliper::GlobalData::s_init_mutex;
 
+const std::thread::id Caliper::GlobalData::s_main_thread_id { std::this_thread::get_id() };
+
 Caliper::GlobalData::S_GObject                Caliper::GlobalData::gObj;
 thread_local Caliper::GlobalData::S_TLSObject Caliper::GlobalData::tObj;
 
@@ -1544,7 +1554,7 @@ Caliper Caliper::instance()
         if (GlobalData::s_init_lock == 1) {
             Log::init();
 
-            tPtr = new ThreadData(true /* is_initial_thread */);
+            tPtr = new ThreadData;
             gPtr = new GlobalData(tPtr);
 
             GlobalData::gObj.g_ptr = gPtr;
@@ -1563,7 +1573,7 @@ Caliper Caliper::instance()
     tPtr = GlobalData::tObj.t_ptr;
 
     if (!tPtr) {
-        tPtr = gPtr->add_thread_data(new ThreadData(false /* is_initial_thread */));
+        tPtr = gPtr->add_thread_data(new ThreadData);
         Caliper c(gPtr, tPtr, false);
 
         for (auto& channel : gPtr->all_channels)
-- 
2.43.0


From 0f58f51d08235cf8a7cbf0213b66b69aefe4ce0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:54 +0000
Subject: [PATCH 046/110] fix: do not modify aggregation attribute lists while
 other threads process snapshots

---
 src/services/aggregate/Aggregate.cpp | 66 +++++++++++++++++++++++-----
 1 file changed, 55 insertions(+), 11 deletions(-)

diff --git a/src/services/aggregate/Aggregate.cpp b/src/services/aggregate/Aggregate.cpp
index 7cdad74..7d7eab5 100644
--- a/src/services/aggregate/Aggregate.cpp
+++ b/src/services/aggregate/Aggregate.cpp
@@ -16,7 +16,9 @@
 #include "caliper/common/Variant.h"
 
 #include <algorithm>
+#include <atomic>
 #include <cstring>
+#include <memory>
 #include <mutex>
 #include <sstream>
 
@@ -69,12 +71,29 @@ class Aggregate
     ThreadDB*      m_tdb_list = nullptr;
     util::spinlock m_tdb_lock;
 
-    AttributeInfo            m_attr_info;
+    //   Attributes can be created in one thread while other threads process
+    // snapshots. Therefore, we never modify a published AttributeInfo object:
+    // updates make a modified copy, and outdated versions are kept until the
+    // end because other threads may still be using them.
+    std::atomic<const AttributeInfo*>                 m_attr_info;
+    std::vector<std::unique_ptr<const AttributeInfo>> m_attr_info_versions;
+    std::mutex                                        m_attr_info_lock;
+
     std::vector<std::string> m_key_attribute_names;
 
     Attribute m_tdb_attr;
 
-    size_t m_num_dropped_snapshots;
+    std::atomic<size_t> m_num_dropped_snapshots;
+
+    //   Publish a new version of the attribute info. Must be called with
+    // m_attr_info_lock held, except during construction.
+    void publish_attr_info(const AttributeInfo& info)
+    {
+        m_attr_info_versions.emplace_back(new AttributeInfo(info));
+        m_attr_info.store(m_attr_info_versions.back().get(), std::memory_order_release);
+    }
+
+    const AttributeInfo& attr_info() const { return *m_attr_info.load(std::memory_order_acquire); }
 
     inline ThreadDB* acquire_tdb(Caliper* c, bool can_alloc)
     {
@@ -130,11 +149,20 @@ class Aggregate
         if (!(attr.properties() & CALI_ATTR_AGGREGATABLE))
             return;
 
-        if (std::find(m_attr_info.aggr_attrs.begin(), m_attr_info.aggr_attrs.end(), attr) != m_attr_info.aggr_attrs.end())
+        // creates attributes, so we can't hold the lock here
+        ResultAttributes result_attrs = make_result_attributes(c, attr);
+
+        std::lock_guard<std::mutex> g(m_attr_info_lock);
+
+        AttributeInfo info(attr_info());
+
+        if (std::find(info.aggr_attrs.begin(), info.aggr_attrs.end(), attr) != info.aggr_attrs.end())
             return;
 
-        m_attr_info.aggr_attrs.push_back(attr);
-        m_attr_info.result_attrs.push_back(make_result_attributes(c, attr));
+        info.aggr_attrs.push_back(attr);
+        info.result_attrs.push_back(result_attrs);
+
+        publish_attr_info(info);
     }
 
     void init_aggregation_attributes(Caliper* c)
@@ -146,8 +174,17 @@ class Aggregate
 
         const int prop = CALI_ATTR_ASVALUE | CALI_ATTR_SCOPE_THREAD | CALI_ATTR_SKIP_EVENTS;
 
-        m_attr_info.count_attr = c->create_attribute("count", CALI_TYPE_UINT, prop);
-        m_attr_info.slot_attr  = c->create_attribute("aggregate.slot", CALI_TYPE_UINT, prop);
+        Attribute count_attr = c->create_attribute("count", CALI_TYPE_UINT, prop);
+        Attribute slot_attr  = c->create_attribute("aggregate.slot", CALI_TYPE_UINT, prop);
+
+        std::lock_guard<std::mutex> g(m_attr_info_lock);
+
+        AttributeInfo info(attr_info());
+
+        info.count_attr = count_attr;
+        info.slot_attr  = slot_attr;
+
+        publish_attr_info(info);
     }
 
     void flush_cb(Caliper* c, SnapshotFlushFn proc_fn)
@@ -163,7 +200,7 @@ class Aggregate
 
         for (; tdb; tdb = tdb->next) {
             tdb->stopped.store(true);
-            num_written += tdb->db.flush(m_attr_info, c, proc_fn);
+            num_written += tdb->db.flush(attr_info(), c, proc_fn);
             tdb->stopped.store(false);
         }
 
@@ -234,18 +271,22 @@ class Aggregate
         ThreadDB* tdb = acquire_tdb(c, !c->is_signal());
 
         if (tdb && !tdb->stopped.load())
-            tdb->db.process_snapshot(c, rec, m_attr_info);
+            tdb->db.process_snapshot(c, rec, attr_info());
         else
             ++m_num_dropped_snapshots;
     }
 
     void check_key_attribute(const Attribute& attr)
     {
+        std::lock_guard<std::mutex> g(m_attr_info_lock);
+
         auto it = std::find(m_key_attribute_names.begin(), m_key_attribute_names.end(), attr.name());
 
         if (it != m_key_attribute_names.end()) {
             if (attr.store_as_value()) {
-                m_attr_info.imm_key_attrs.push_back(attr);
+                AttributeInfo info(attr_info());
+                info.imm_key_attrs.push_back(attr);
+                publish_attr_info(info);
             } else {
                 Log(1).stream() << m_channel_name
                     << ": aggregate: Reference attributes are no longer supported in CALI_AGGREGATE_KEY, ignoring "
@@ -294,8 +335,11 @@ class Aggregate
                             << std::endl;
     }
 
-    Aggregate(Caliper* c, Channel* chn) : m_channel_name { chn->name() }, m_num_dropped_snapshots(0)
+    Aggregate(Caliper* c, Channel* chn)
+        : m_channel_name { chn->name() }, m_attr_info { nullptr }, m_num_dropped_snapshots { 0 }
     {
+        publish_attr_info(AttributeInfo());
+
         auto cfg = services::init_config_from_spec(chn->config(), s_spec);        
         m_key_attribute_names = cfg.get("key").to_stringlist(",");
         
-- 
2.43.0


From 4241afe8d3b175e18f27d126bbb3dbca52a4ea8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:54 +0000
Subject: [PATCH 047/110] fix: protect the thread counters of the statistics
 service

---
 src/services/statistics/Statistics.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/services/statistics/Statistics.cpp b/src/services/statistics/Statistics.cpp
index 28d9324..f071809 100644
--- a/src/services/statistics/Statistics.cpp
+++ b/src/services/statistics/Statistics.cpp
@@ -113,10 +113,14 @@ public:
 
         if (chn->id() == 0) {
             chn->events().create_thread_evt.connect([instance](Caliper* c, Channel* chn) {
+                std::lock_guard<std::mutex> g(instance->lock);
                 ++instance->num_threads;
                 instance->max_threads = std::max(instance->num_threads, instance->max_threads);
             });
-            chn->events().release_thread_evt.connect([instance](Caliper* c, Channel* chn) { --instance->num_threads; });
+            chn->events().release_thread_evt.connect([instance](Caliper* c, Channel* chn) {
+                std::lock_guard<std::mutex> g(instance->lock);
+                --instance->num_threads;
+            });
         }
 
         chn->events().finish_evt.connect([instance](Caliper* c, Channel* chn) {
-- 
2.43.0


From 90f6dd9f7618dc2d93ad9a8497ae924b806bab60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:54 +0000
Subject: [PATCH 048/110] fix: write whole log messages under a lock

---
 include/caliper/common/Log.h | 19 ++++++++++++++++---
 src/common/Log.cpp           | 29 ++++++++++++++++++++++++++---
 2 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/include/caliper/common/Log.h b/include/caliper/common/Log.h
index 1a22691..f54ec47 100644
--- a/include/caliper/common/Log.h
+++ b/include/caliper/common/Log.h
@@ -9,17 +9,25 @@
 
 #include <iostream>
 #include <fstream>
+#include <sstream>
 
 namespace cali
 {
 
 /// \brief A logging stream
+///
+/// The log message is collected in the Log object, and written into the actual
+/// log stream when the Log object is destroyed. Messages from different threads
+/// can therefore not get mixed up.
 class Log
 {
-    std::ofstream m_nullstream;
-    int           m_level;
+    std::ostringstream m_stream;
+    int                m_level;
 
     std::ostream& get_stream();
+    std::ostream& get_nullstream();
+
+    void write_message();
 
 public:
 
@@ -34,7 +42,7 @@ public:
     inline std::ostream& stream()
     {
         if (verbosity() < m_level)
-            return m_nullstream;
+            return get_nullstream();
 
         return get_stream();
     }
@@ -59,6 +67,11 @@ public:
     std::ostream& perror(int errnum, const char* msg = "");
 
     Log(int level = 1) : m_level { level } {}
+
+    ~Log() { write_message(); }
+
+    Log(const Log&)            = delete;
+    Log& operator=(const Log&) = delete;
 };
 
 } // namespace cali
diff --git a/src/common/Log.cpp b/src/common/Log.cpp
index a289a49..354d38e 100644
--- a/src/common/Log.cpp
+++ b/src/common/Log.cpp
@@ -9,8 +9,10 @@
 #include "RuntimeConfig.h"
 
 #include <cstring>
+#include <fstream>
 #include <memory>
 #include <map>
+#include <mutex>
 
 using namespace cali;
 
@@ -22,6 +24,9 @@ struct LogImpl {
 
     static LogImpl* s_instance;
 
+    // protects the log stream
+    static std::mutex s_stream_mutex;
+
     enum class Stream { StdOut, StdErr, None, File };
 
     ConfigSet m_config;
@@ -99,7 +104,8 @@ const ConfigSet::Entry LogImpl::s_configdata[] = {
     ConfigSet::Terminator
 };
 
-LogImpl* LogImpl::s_instance = nullptr;
+LogImpl*   LogImpl::s_instance = nullptr;
+std::mutex LogImpl::s_stream_mutex;
 
 //
 // --- Log public interface
@@ -107,13 +113,30 @@ LogImpl* LogImpl::s_instance = nullptr;
 
 std::ostream& Log::get_stream()
 {
-    return LogImpl::s_instance->get_stream() << LogImpl::s_instance->m_prefix;
+    return m_stream << LogImpl::s_instance->m_prefix;
+}
+
+std::ostream& Log::get_nullstream()
+{
+    m_stream.setstate(std::ios_base::badbit); // makes operator<< ignore all input
+    return m_stream;
+}
+
+void Log::write_message()
+{
+    const std::string msg = m_stream.str();
+
+    if (msg.empty() || LogImpl::s_instance == nullptr)
+        return;
+
+    std::lock_guard<std::mutex> g(LogImpl::s_stream_mutex);
+    LogImpl::s_instance->get_stream() << msg << std::flush;
 }
 
 std::ostream& Log::perror(int errnum, const char* msg)
 {
     if (verbosity() < m_level)
-        return m_nullstream;
+        return get_nullstream();
 
 #ifdef _GLIBCXX_HAVE_STRERROR_R
     char buf[120];
-- 
2.43.0


From 50c7883a8c53d730cafd2c84bcbeb4b079fafdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:37 +0000
Subject: [PATCH 049/110] fix: report no regions in region profiles of a region
 type that does not exist

---
 src/reader/FlatExclusiveRegionProfile.cpp   | 11 +++++++++--
 src/reader/FlatInclusiveRegionProfile.cpp   | 11 +++++++++--
 src/reader/NestedExclusiveRegionProfile.cpp | 11 +++++++++--
 src/reader/NestedInclusiveRegionProfile.cpp | 11 +++++++++--
 4 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/reader/FlatExclusiveRegionProfile.cpp b/src/reader/FlatExclusiveRegionProfile.cpp
index 58aa984..8179570 100644
--- a/src/reader/FlatExclusiveRegionProfile.cpp
+++ b/src/reader/FlatExclusiveRegionProfile.cpp
@@ -18,6 +18,8 @@ struct FlatExclusiveRegionProfile::FlatExclusiveRegionProfileImpl {
     Attribute metric_attr;
     Attribute region_attr;
 
+    bool region_attr_not_found = false;
+
     void process_record(CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec)
     {
         cali_id_t metric_attr_id = metric_attr.id();
@@ -32,6 +34,9 @@ struct FlatExclusiveRegionProfile::FlatExclusiveRegionProfileImpl {
         double val = metric_entry_it->value().to_double();
         total += val;
 
+        if (region_attr_not_found)
+            return; // there are no regions of the requested type
+
         auto region_entry_it = rec.end();
 
         if (!region_attr)
@@ -60,8 +65,10 @@ FlatExclusiveRegionProfile::FlatExclusiveRegionProfile(
 {
     mP->metric_attr = db.get_attribute(metric_attr_name);
 
-    if (region_attr_name && strlen(region_attr_name) > 0)
-        mP->region_attr = db.get_attribute(region_attr_name);
+    if (region_attr_name && strlen(region_attr_name) > 0) {
+        mP->region_attr           = db.get_attribute(region_attr_name);
+        mP->region_attr_not_found = !mP->region_attr;
+    }
 }
 
 void FlatExclusiveRegionProfile::operator() (CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec)
diff --git a/src/reader/FlatInclusiveRegionProfile.cpp b/src/reader/FlatInclusiveRegionProfile.cpp
index e51e3af..761f7e1 100644
--- a/src/reader/FlatInclusiveRegionProfile.cpp
+++ b/src/reader/FlatInclusiveRegionProfile.cpp
@@ -18,6 +18,8 @@ struct FlatInclusiveRegionProfile::FlatInclusiveRegionProfileImpl {
     Attribute metric_attr;
     Attribute region_attr;
 
+    bool region_attr_not_found = false;
+
     void process_record(CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec)
     {
         cali_id_t metric_attr_id = metric_attr.id();
@@ -32,6 +34,9 @@ struct FlatInclusiveRegionProfile::FlatInclusiveRegionProfileImpl {
         double val = metric_entry_it->value().to_double();
         total += val;
 
+        if (region_attr_not_found)
+            return; // there are no regions of the requested type
+
         cali_id_t r_a_id         = region_attr.id();
         bool      have_reg_entry = false;
 
@@ -64,8 +69,10 @@ FlatInclusiveRegionProfile::FlatInclusiveRegionProfile(
 {
     mP->metric_attr = db.get_attribute(metric_attr_name);
 
-    if (region_attr_name && strlen(region_attr_name) > 0)
-        mP->region_attr = db.get_attribute(region_attr_name);
+    if (region_attr_name && strlen(region_attr_name) > 0) {
+        mP->region_attr           = db.get_attribute(region_attr_name);
+        mP->region_attr_not_found = !mP->region_attr;
+    }
 }
 
 void FlatInclusiveRegionProfile::operator() (CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec)
diff --git a/src/reader/NestedExclusiveRegionProfile.cpp b/src/reader/NestedExclusiveRegionProfile.cpp
index daa83fd..79fe46d 100644
--- a/src/reader/NestedExclusiveRegionProfile.cpp
+++ b/src/reader/NestedExclusiveRegionProfile.cpp
@@ -41,6 +41,8 @@ struct NestedExclusiveRegionProfile::NestedExclusiveRegionProfileImpl {
     Attribute metric_attr;
     Attribute region_attr;
 
+    bool region_attr_not_found = false;
+
     void process_record(CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec)
     {
         cali_id_t metric_attr_id = metric_attr.id();
@@ -55,6 +57,9 @@ struct NestedExclusiveRegionProfile::NestedExclusiveRegionProfileImpl {
         double val = metric_entry_it->value().to_double();
         total += val;
 
+        if (region_attr_not_found)
+            return; // there are no regions of the requested type
+
         cali_id_t r_a_id = region_attr.id();
 
         for (const Entry& e : rec) {
@@ -82,8 +87,10 @@ NestedExclusiveRegionProfile::NestedExclusiveRegionProfile(
 {
     mP->metric_attr = db.get_attribute(metric_attr_name);
 
-    if (region_attr_name && strlen(region_attr_name) > 0)
-        mP->region_attr = db.get_attribute(region_attr_name);
+    if (region_attr_name && strlen(region_attr_name) > 0) {
+        mP->region_attr           = db.get_attribute(region_attr_name);
+        mP->region_attr_not_found = !mP->region_attr;
+    }
 }
 
 void NestedExclusiveRegionProfile::operator() (CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec)
diff --git a/src/reader/NestedInclusiveRegionProfile.cpp b/src/reader/NestedInclusiveRegionProfile.cpp
index a5352dc..c1a10d3 100644
--- a/src/reader/NestedInclusiveRegionProfile.cpp
+++ b/src/reader/NestedInclusiveRegionProfile.cpp
@@ -49,6 +49,8 @@ struct NestedInclusiveRegionProfile::NestedInclusiveRegionProfileImpl {
     Attribute metric_attr;
     Attribute region_attr;
 
+    bool region_attr_not_found = false;
+
     void process_record(CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec)
     {
         cali_id_t metric_attr_id = metric_attr.id();
@@ -63,6 +65,9 @@ struct NestedInclusiveRegionProfile::NestedInclusiveRegionProfileImpl {
         double val = metric_entry_it->value().to_double();
         total += val;
 
+        if (region_attr_not_found)
+            return; // there are no regions of the requested type
+
         cali_id_t   r_a_id = region_attr.id();
         std::string pathstr;
 
@@ -90,8 +95,10 @@ NestedInclusiveRegionProfile::NestedInclusiveRegionProfile(
 {
     mP->metric_attr = db.get_attribute(metric_attr_name);
 
-    if (region_attr_name && strlen(region_attr_name) > 0)
-        mP->region_attr = db.get_attribute(region_attr_name);
+    if (region_attr_name && strlen(region_attr_name) > 0) {
+        mP->region_attr           = db.get_attribute(region_attr_name);
+        mP->region_attr_not_found = !mP->region_attr;
+    }
 }
 
 void NestedInclusiveRegionProfile::operator() (CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec)
-- 
2.43.0


From db61444063aa164b0b26d99149c78f1e0df3d495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:37 +0000
Subject: [PATCH 050/110] fix: do not count time before a thread started or
 while a channel was inactive

---
 include/caliper/Caliper.h    |  3 +++
 src/caliper/Caliper.cpp      |  5 +++++
 src/services/timer/Timer.cpp | 38 +++++++++++++++++++++++++++++-------
 3 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/include/caliper/Caliper.h b/include/caliper/Caliper.h
index 883e5c4..61219d4 100644
--- a/include/caliper/Caliper.h
+++ b/include/caliper/Caliper.h
@@ -112,6 +112,9 @@ public:
         /// this channel. It is for local cleanup only.
         caliper_cbvec finish_evt;
 
+        /// \brief Invoked when an inactive channel is being activated.
+        caliper_cbvec activate_evt;
+
         /// \brief Invoked when a snapshot is being taken.
         ///
         /// Use this callback to take performance measurements and append them
diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index 9432bdd..b3f4d50 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -1489,6 +1489,11 @@ void Caliper::delete_channel(Channel& channel)
 
 void Caliper::activate_channel(Channel& channel)
 {
+    if (!channel.mP->is_active) {
+        std::lock_guard<::siglock> g(sT->lock);
+        channel.mP->events.activate_evt(this, &channel);
+    }
+
     channel.mP->is_active = true;
     sG->add_active_channel(channel);
 }
diff --git a/src/services/timer/Timer.cpp b/src/services/timer/Timer.cpp
index 5ec1422..3ae3eb5 100644
--- a/src/services/timer/Timer.cpp
+++ b/src/services/timer/Timer.cpp
@@ -11,6 +11,8 @@
 
 #include "caliper/common/Log.h"
 
+#include <algorithm>
+#include <atomic>
 #include <cassert>
 #include <chrono>
 #include <map>
@@ -43,6 +45,9 @@ class TimerService
 
     std::chrono::time_point<clock> tstart;
 
+    // Time of the channel's last activation
+    std::atomic<uint64_t> activation_timestamp;
+
     Attribute timeoffs_attr;
     Attribute timerinfo_attr;
 
@@ -59,7 +64,12 @@ class TimerService
     Attribute begin_evt_attr;
     Attribute end_evt_attr;
 
-    int n_stack_errors { 0 };
+    std::atomic<int> n_stack_errors { 0 };
+
+    uint64_t now_nsec() const
+    {
+        return std::chrono::duration_cast<std::chrono::nanoseconds>(clock::now() - tstart).count();
+    }
 
     TimerInfo* acquire_timerinfo(Caliper* c)
     {
@@ -80,8 +90,7 @@ class TimerService
 
     void snapshot_cb(Caliper* c, SnapshotView info, SnapshotBuilder& rec)
     {
-        auto     now  = clock::now();
-        uint64_t nsec = std::chrono::duration_cast<std::chrono::nanoseconds>(now - tstart).count();
+        uint64_t nsec = now_nsec();
 
         rec.append(offset_attr, Variant(nsec));
 
@@ -90,7 +99,10 @@ class TimerService
         if (!ti)
             return;
 
-        rec.append(snapshot_duration_attr, cali_make_variant_from_uint(nsec - ti->prev_snapshot_timestamp));
+        // don't count the time when the channel was inactive
+        uint64_t prev = std::max(ti->prev_snapshot_timestamp, std::min(activation_timestamp.load(), nsec));
+
+        rec.append(snapshot_duration_attr, cali_make_variant_from_uint(nsec - prev));
         ti->prev_snapshot_timestamp = nsec;
 
         if (record_inclusive_duration && !info.empty() && !c->is_signal()) {
@@ -118,6 +130,17 @@ class TimerService
         }
     }
 
+    void create_thread_cb(Caliper* c)
+    {
+        // This thread's time starts now
+        TimerInfo* ti = acquire_timerinfo(c);
+
+        if (ti)
+            ti->prev_snapshot_timestamp = now_nsec();
+    }
+
+    void activate_cb() { activation_timestamp.store(now_nsec()); }
+
     void post_init_cb(Caliper* c, Channel* chn)
     {
         // Find begin/end event snapshot event info attributes
@@ -139,11 +162,11 @@ class TimerService
     void finish_cb(Caliper*, Channel* chn)
     {
         if (n_stack_errors > 0)
-            Log(1).stream() << chn->name() << ": timestamp: Encountered " << n_stack_errors
+            Log(1).stream() << chn->name() << ": timestamp: Encountered " << n_stack_errors.load()
                             << " inclusive time stack errors!" << std::endl;
     }
 
-    TimerService(Caliper* c, Channel* chn) : tstart(clock::now())
+    TimerService(Caliper* c, Channel* chn) : tstart(clock::now()), activation_timestamp(0)
     {
         ConfigSet config          = services::init_config_from_spec(chn->config(), s_spec);
         record_inclusive_duration = config.get("inclusive_duration").to_bool();
@@ -199,7 +222,8 @@ public:
         TimerService* instance = new TimerService(c, chn);
 
         chn->events().post_init_evt.connect([instance](Caliper* c, Channel* chn) { instance->post_init_cb(c, chn); });
-        chn->events().create_thread_evt.connect([instance](Caliper* c, Channel*) { instance->acquire_timerinfo(c); });
+        chn->events().create_thread_evt.connect([instance](Caliper* c, Channel*) { instance->create_thread_cb(c); });
+        chn->events().activate_evt.connect([instance](Caliper*, Channel*) { instance->activate_cb(); });
         chn->events().snapshot.connect([instance](Caliper* c, SnapshotView info, SnapshotBuilder& rec) {
             instance->snapshot_cb(c, info, rec);
         });
-- 
2.43.0


From 563ddc16bdcd768f94ef4e7e4aa805e97c0f98f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:10 +0000
Subject: [PATCH 051/110] fix: do not lose other threads' process- or
 channel-scope entries when ending one

---
 src/caliper/Caliper.cpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index b3f4d50..cdb892f 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -1099,6 +1099,15 @@ void Caliper::end(const Attribute& attr)
         handle_end(attr, prop, current, key, sT->thread_blackboard, sT->tree);
     else {
         std::lock_guard<std::mutex> gbb(sG->process_blackboard_lock);
+
+        // Other threads may have updated the process blackboard in the meantime
+        current = load_current_entry(attr, key, sG->process_blackboard);
+
+        if (current.entry.empty()) {
+            sT->stack_error = true;
+            return;
+        }
+
         handle_end(attr, prop, current, key, sG->process_blackboard, sT->tree);
     }
 }
@@ -1144,6 +1153,15 @@ void Caliper::end_with_value_check(const Attribute& attr, const Variant& data)
         handle_end(attr, prop, current, key, sT->thread_blackboard, sT->tree);
     else {
         std::lock_guard<std::mutex> gbb(sG->process_blackboard_lock);
+
+        // Other threads may have updated the process blackboard in the meantime
+        current = load_current_entry(attr, key, sG->process_blackboard);
+
+        if (current.entry.empty()) {
+            sT->stack_error = true;
+            return;
+        }
+
         handle_end(attr, prop, current, key, sG->process_blackboard, sT->tree);
     }
 }
@@ -1231,6 +1249,15 @@ void Caliper::end(ChannelBody* chB, const Attribute& attr)
 
     {
         std::lock_guard<std::mutex> gbb(chB->channel_blackboard_lock);
+
+        // Other threads may have updated the channel blackboard in the meantime
+        current = load_current_entry(attr, key, chB->channel_blackboard);
+
+        if (current.entry.empty()) {
+            sT->stack_error = true;
+            return;
+        }
+
         handle_end(attr, prop, current, key, chB->channel_blackboard, sT->tree);
     }
 }
-- 
2.43.0


From ecea9be770ed109e95a2ee0d1f29ad2c910ea116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:56 +0000
Subject: [PATCH 052/110] fix: do not divide by zero for tracked allocations
 with zero-size elements

---
 src/services/alloc/AllocService.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/services/alloc/AllocService.cpp b/src/services/alloc/AllocService.cpp
index f607947..8181cce 100644
--- a/src/services/alloc/AllocService.cpp
+++ b/src/services/alloc/AllocService.cpp
@@ -47,7 +47,7 @@ struct AllocInfo {
     cali::Node* free_label_node;
     cali::Node* addr_label_nodes[MAX_ADDRESS_ATTRIBUTES];
 
-    size_t index_1D(uint64_t addr) const { return (addr - start_addr) / elem_size; }
+    size_t index_1D(uint64_t addr) const { return elem_size > 0 ? (addr - start_addr) / elem_size : 0; }
 };
 
 /// Three-way predicate to tell if given address is within AllocInfo's address range, less, or higher
@@ -184,7 +184,7 @@ class AllocService
         info.total_size = total_size;
         info.v_uid      = Variant(cali_make_variant_from_uint(++g_alloc_uid));
         info.elem_size  = elem_size;
-        info.num_elems  = total_size / elem_size;
+        info.num_elems  = elem_size > 0 ? total_size / elem_size : 0;
 
         Variant v_label(label);
 
-- 
2.43.0


From 12fd29dc59d1d89f8d482151d4d839e445204149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:56 +0000
Subject: [PATCH 053/110] fix: do not truncate the sizes of tracked allocations
 of 2 GiB and more

---
 src/services/alloc/AllocService.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/services/alloc/AllocService.cpp b/src/services/alloc/AllocService.cpp
index 8181cce..fba162b 100644
--- a/src/services/alloc/AllocService.cpp
+++ b/src/services/alloc/AllocService.cpp
@@ -208,7 +208,7 @@ class AllocService
                 c,
                 chB,
                 info.alloc_label_node,
-                Variant(static_cast<int>(total_size)),
+                Variant(cali_make_variant_from_int64(static_cast<int64_t>(total_size))),
                 info.v_uid,
                 Variant(CALI_TYPE_ADDR, &ptr, sizeof(void*))
             );
@@ -256,7 +256,7 @@ class AllocService
                 c,
                 chB,
                 info.free_label_node,
-                Variant(-static_cast<int>(info.total_size)),
+                Variant(cali_make_variant_from_int64(-static_cast<int64_t>(info.total_size))),
                 info.v_uid,
                 Variant(CALI_TYPE_ADDR, &ptr, sizeof(void*))
             );
-- 
2.43.0


From f7e256e790b7ffed39a7ad79f4ff4b1a5277c5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:12 +0000
Subject: [PATCH 054/110] fix: do not count allocations twice that are tracked
 again without being untracked

---
 src/services/alloc/AllocService.cpp      | 25 +++++++++++++++++-------
 src/services/alloc/AllocStatsService.cpp | 22 +++++++++++++++------
 2 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/src/services/alloc/AllocService.cpp b/src/services/alloc/AllocService.cpp
index fba162b..e8157de 100644
--- a/src/services/alloc/AllocService.cpp
+++ b/src/services/alloc/AllocService.cpp
@@ -213,22 +213,33 @@ class AllocService
                 Variant(CALI_TYPE_ADDR, &ptr, sizeof(void*))
             );
 
-        {
-            std::lock_guard<std::mutex> g(g_hwm_lock);
-
-            g_active_mem += total_size;
-            g_hwm        = std::max(g_hwm, g_active_mem);
-            g_region_hwm = std::max(g_region_hwm, g_active_mem);
-        }
+        uint64_t replaced_size = 0;
 
         {
             std::lock_guard<std::mutex> g(g_tree_lock);
 
+            auto tree_node = g_tree.find(HasStartAddress(info.start_addr));
+
+            // The allocation replaces one that was never untracked
+            if (tree_node) {
+                replaced_size = (*tree_node).total_size;
+                --g_current_tracked;
+            }
+
             g_tree.insert(info);
 
             g_max_tracked = std::max(++g_current_tracked, g_max_tracked);
             ++g_total_tracked;
         }
+
+        {
+            std::lock_guard<std::mutex> g(g_hwm_lock);
+
+            g_active_mem -= replaced_size;
+            g_active_mem += total_size;
+            g_hwm        = std::max(g_hwm, g_active_mem);
+            g_region_hwm = std::max(g_region_hwm, g_active_mem);
+        }
     }
 
     void untrack_mem_cb(Caliper* c, ChannelBody* chB, const void* ptr)
diff --git a/src/services/alloc/AllocStatsService.cpp b/src/services/alloc/AllocStatsService.cpp
index e691322..4b971a6 100644
--- a/src/services/alloc/AllocStatsService.cpp
+++ b/src/services/alloc/AllocStatsService.cpp
@@ -69,6 +69,9 @@ class AllocStatsService
         uint64_t    addr = reinterpret_cast<uint64_t>(ptr);
         cali::Node* path = c->get_path_node().node();
 
+        // Remove any previous allocation at this address that was never untracked
+        remove_alloc(addr);
+
         if (!path)
             return;
 
@@ -104,18 +107,15 @@ class AllocStatsService
         }
     }
 
-    void untrack_mem_cb(Caliper* c, const void* ptr)
+    bool remove_alloc(uint64_t addr)
     {
-        uint64_t addr = reinterpret_cast<uint64_t>(ptr);
         AllocInfo alloc_info { 0, nullptr };
 
         {
             std::lock_guard<std::mutex> g(g_alloc_map_lock);
             auto it = g_alloc_map.find(addr);
-            if (it == g_alloc_map.end()) {
-                ++g_failed_untrack;
-                return;
-            }
+            if (it == g_alloc_map.end())
+                return false;
             alloc_info = it->second;
             g_alloc_map.erase(it);
             --g_current_tracked;
@@ -130,6 +130,16 @@ class AllocStatsService
             std::lock_guard<std::mutex> g(g_hwm_lock);
             g_active_mem -= alloc_info.bytes;
         }
+
+        return true;
+    }
+
+    void untrack_mem_cb(Caliper* c, const void* ptr)
+    {
+        if (!remove_alloc(reinterpret_cast<uint64_t>(ptr))) {
+            std::lock_guard<std::mutex> g(g_alloc_map_lock);
+            ++g_failed_untrack;
+        }
     }
 
     void snapshot_cb(Caliper* c, SnapshotView, SnapshotBuilder& rec) {
-- 
2.43.0


From 87e130cef7bdf23a1e0eb8b6094a69a7804919df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:31 +0000
Subject: [PATCH 055/110] fix: reset allocation statistics when a channel is
 cleared

---
 src/services/alloc/AllocStatsService.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/services/alloc/AllocStatsService.cpp b/src/services/alloc/AllocStatsService.cpp
index 4b971a6..6d24e55 100644
--- a/src/services/alloc/AllocStatsService.cpp
+++ b/src/services/alloc/AllocStatsService.cpp
@@ -123,7 +123,9 @@ class AllocStatsService
 
         {
             std::lock_guard<std::mutex> g(g_region_map_lock);
-            g_region_map[alloc_info.path->id()].current_bytes -= alloc_info.bytes;
+            auto it = g_region_map.find(alloc_info.path->id());
+            if (it != g_region_map.end())
+                it->second.current_bytes -= alloc_info.bytes;
         }
 
         {
@@ -177,7 +179,7 @@ class AllocStatsService
             rec.emplace_back(alloc_tally_attr, cali_make_variant_from_uint(it.second.hwm));
             rec.emplace_back(alloc_count_attr, cali_make_variant_from_uint(it.second.count));
             rec.emplace_back(max_alloc_size_attr, cali_make_variant_from_uint(it.second.max_bytes));
-            rec.emplace_back(avg_alloc_size_attr, cali_make_variant_from_uint(it.second.total_bytes/it.second.count));
+            rec.emplace_back(avg_alloc_size_attr, cali_make_variant_from_uint(it.second.count > 0 ? it.second.total_bytes/it.second.count : 0));
             flush_fn(*c, rec);
         }
 
@@ -186,7 +188,19 @@ class AllocStatsService
 
     void clear_cb(Caliper*, Channel*) {
         std::lock_guard<std::mutex> g(g_region_map_lock);
-        g_region_map.clear();
+
+        // Keep regions with active allocations, their tallies start from the current value
+        for (auto it = g_region_map.begin(); it != g_region_map.end(); ) {
+            RegionInfo& info = it->second;
+            if (info.current_bytes > 0) {
+                info.total_bytes = 0;
+                info.max_bytes   = 0;
+                info.hwm         = info.current_bytes;
+                info.count       = 0;
+                ++it;
+            } else
+                it = g_region_map.erase(it);
+        }
     }
 
     void finish_cb(Caliper* c, Channel* chn)
@@ -238,6 +252,7 @@ public:
         chn->events().flush_evt.connect([instance](Caliper* c, SnapshotView ctx, SnapshotFlushFn flush_fn){
             instance->flush_cb(c, ctx, flush_fn);
         });
+        chn->events().clear_evt.connect([instance](Caliper* c, Channel* chn) { instance->clear_cb(c, chn); });
         chn->events().finish_evt.connect([instance](Caliper* c, Channel* chn) {
             instance->finish_cb(c, chn);
             delete instance;
-- 
2.43.0


From 9be2917ffa313b026061db12c2285d3ce061f418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:31 +0000
Subject: [PATCH 056/110] fix: do not track failed memory allocations

---
 src/services/sysalloc/SysAllocService.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/services/sysalloc/SysAllocService.cpp b/src/services/sysalloc/SysAllocService.cpp
index 306f06e..ff01544 100644
--- a/src/services/sysalloc/SysAllocService.cpp
+++ b/src/services/sysalloc/SysAllocService.cpp
@@ -59,7 +59,7 @@ void* cali_malloc_wrapper(size_t size)
     for (ChannelList* p = sysalloc_channels; p; p = p->next) {
         Caliper c = Caliper::sigsafe_instance(); // prevent reentry
 
-        if (c && p->channel.is_active())
+        if (c && ret && p->channel.is_active())
             c.memory_region_begin(p->channel.body(), ret, "malloc", 1, 1, &size);
     }
 
@@ -80,7 +80,7 @@ void* cali_calloc_wrapper(size_t num, size_t size)
     for (ChannelList* p = sysalloc_channels; p; p = p->next) {
         Caliper c = Caliper::sigsafe_instance(); // prevent reentry
 
-        if (c && p->channel.is_active())
+        if (c && ret && p->channel.is_active())
             c.memory_region_begin(p->channel.body(), ret, "calloc", size, 1, &num);
     }
 
@@ -108,7 +108,7 @@ void* cali_realloc_wrapper(void* ptr, size_t size)
     for (ChannelList* p = sysalloc_channels; p; p = p->next) {
         Caliper c = Caliper::sigsafe_instance();
 
-        if (c && p->channel.is_active())
+        if (c && ret && p->channel.is_active())
             c.memory_region_begin(p->channel.body(), ret, "realloc", 1, 1, &size);
     }
 
-- 
2.43.0


From 469c577faa3713b01aefb94d972f0833d5ad1e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:40 +0000
Subject: [PATCH 057/110] fix: access the allocation counter and address
 attributes of the alloc service thread-safely

---
 src/services/alloc/AllocService.cpp | 33 +++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/services/alloc/AllocService.cpp b/src/services/alloc/AllocService.cpp
index e8157de..ef5b881 100644
--- a/src/services/alloc/AllocService.cpp
+++ b/src/services/alloc/AllocService.cpp
@@ -129,7 +129,9 @@ class AllocService
     };
 
     std::atomic<unsigned long> g_alloc_uid { 0 };
-    std::vector<alloc_attrs>   g_memoryaddress_attrs;
+    alloc_attrs                g_memoryaddress_attrs[MAX_ADDRESS_ATTRIBUTES];
+    std::atomic<int>           g_num_memoryaddress_attrs { 0 };
+    std::mutex                 g_memoryaddress_attrs_lock;
 
     cali::Node g_alloc_root_node { CALI_INV_ID, CALI_INV_ID, Variant() };
 
@@ -198,7 +200,7 @@ class AllocService
 
         std::fill_n(info.addr_label_nodes, MAX_ADDRESS_ATTRIBUTES, nullptr);
 
-        for (int i = 0; i < std::min<int>(g_memoryaddress_attrs.size(), MAX_ADDRESS_ATTRIBUTES); ++i) {
+        for (int i = 0; i < g_num_memoryaddress_attrs.load(); ++i) {
             info.addr_label_nodes[i] =
                 c->make_tree_entry(g_memoryaddress_attrs[i].alloc_label_attr, v_label, root_node);
         }
@@ -281,7 +283,7 @@ class AllocService
 
     void resolve_addresses(Caliper* c, const SnapshotView trigger_info, SnapshotBuilder& snapshot)
     {
-        for (int i = 0; i < std::min<int>(g_memoryaddress_attrs.size(), MAX_ADDRESS_ATTRIBUTES); ++i) {
+        for (int i = 0; i < g_num_memoryaddress_attrs.load(); ++i) {
             Entry e = trigger_info.get(g_memoryaddress_attrs[i].memoryaddress_attr);
 
             if (e.empty())
@@ -333,8 +335,16 @@ class AllocService
     void snapshot_cb(Caliper* c, SnapshotView info, SnapshotBuilder& snapshot)
     {
         // Record currently active amount of allocated memory
-        if (g_record_active_mem)
-            snapshot.append(active_mem_attr, Variant(cali_make_variant_from_uint(g_active_mem)));
+        if (g_record_active_mem) {
+            uint64_t active_mem = 0;
+
+            {
+                std::lock_guard<std::mutex> g(g_hwm_lock);
+                active_mem = g_active_mem;
+            }
+
+            snapshot.append(active_mem_attr, Variant(cali_make_variant_from_uint(active_mem)));
+        }
 
         if (g_resolve_addresses && !info.empty())
             resolve_addresses(c, info, snapshot);
@@ -362,16 +372,21 @@ class AllocService
                                          CALI_ATTR_SCOPE_THREAD | CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS
                                      ) };
 
-        if (g_memoryaddress_attrs.size() >= MAX_ADDRESS_ATTRIBUTES)
+        std::lock_guard<std::mutex> g(g_memoryaddress_attrs_lock);
+
+        int num_attrs = g_num_memoryaddress_attrs.load();
+
+        if (num_attrs >= MAX_ADDRESS_ATTRIBUTES)
             Log(1).stream() << "alloc: Can't perform lookup for more than " << MAX_ADDRESS_ATTRIBUTES
                             << " attributes. Skipping " << attr.name() << std::endl;
-        else
-            g_memoryaddress_attrs.push_back(attrs);
+        else {
+            g_memoryaddress_attrs[num_attrs] = attrs;
+            g_num_memoryaddress_attrs.store(num_attrs + 1);
+        }
     }
 
     void create_attr_cb(Caliper* c, const Attribute& attr)
     {
-        // Note: this isn't threadsafe!
         if (attr.get(class_memoryaddress_attr).to_bool() == true)
             make_address_attributes(c, attr);
     }
-- 
2.43.0


From 791ac54e8ad99aaf755c937167ca1f558a8b3334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:40 +0000
Subject: [PATCH 058/110] fix: resolve the labels of allocations tracked before
 the address attribute was created

---
 src/services/alloc/AllocService.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/services/alloc/AllocService.cpp b/src/services/alloc/AllocService.cpp
index ef5b881..a57ea7b 100644
--- a/src/services/alloc/AllocService.cpp
+++ b/src/services/alloc/AllocService.cpp
@@ -309,6 +309,18 @@ class AllocService
                 );
 
                 label_node = (*tree_node).addr_label_nodes[i];
+
+                // The address attribute may have been created after the allocation was tracked
+                if (!label_node) {
+                    cali::Node* alloc_node = (*tree_node).alloc_label_node;
+                    label_node             = c->make_tree_entry(
+                        g_memoryaddress_attrs[i].alloc_label_attr,
+                        alloc_node->data(),
+                        alloc_node->parent()
+                    );
+
+                    (*tree_node).addr_label_nodes[i] = label_node;
+                }
             }
 
             snapshot.append(2, data);
-- 
2.43.0


From a9b7f65cf55c550a605c31d345d50f97c68479a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:43 +0000
Subject: [PATCH 059/110] fix: keep the runtime configuration available for
 finalization at program exit

---
 src/common/RuntimeConfig.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/RuntimeConfig.cpp b/src/common/RuntimeConfig.cpp
index ba90810..17cef69 100644
--- a/src/common/RuntimeConfig.cpp
+++ b/src/common/RuntimeConfig.cpp
@@ -382,7 +382,8 @@ bool RuntimeConfig::allow_read_env(bool allow)
 
 RuntimeConfig RuntimeConfig::get_default_config()
 {
-    static RuntimeConfig s_default_config;
+    // Not destroyed: Caliper may finalize after this object's destructor would run
+    static RuntimeConfig* s_default_config = new RuntimeConfig;
 
-    return s_default_config;
+    return *s_default_config;
 }
-- 
2.43.0


From e9d0c2d2e3eb0bbc370411e02afe32de77965718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 060/110] fix: reuse the memory of ended threads for new
 threads

---
 src/caliper/Blackboard.cpp | 12 +++++++++++
 src/caliper/Blackboard.h   |  3 +++
 src/caliper/Caliper.cpp    | 42 +++++++++++++++++++++++++++++++++++++-
 3 files changed, 56 insertions(+), 1 deletion(-)

diff --git a/src/caliper/Blackboard.cpp b/src/caliper/Blackboard.cpp
index 3541556..690c072 100644
--- a/src/caliper/Blackboard.cpp
+++ b/src/caliper/Blackboard.cpp
@@ -5,6 +5,7 @@
 
 #include "caliper/SnapshotRecord.h"
 
+#include <algorithm>
 #include <iostream>
 
 #ifdef _WIN32
@@ -71,6 +72,17 @@ void Blackboard::set(cali_id_t key, const Entry& value, bool include_in_snapshot
     ++ucount;
 }
 
+void Blackboard::clear()
+{
+    std::fill_n(hashtable, Nmax, blackboard_entry_t());
+    std::fill_n(toc, sizeof(toc) / sizeof(toc[0]), 0);
+
+    toctoc      = 0;
+    num_entries = 0;
+
+    ++ucount;
+}
+
 void Blackboard::del(cali_id_t key)
 {
     size_t I = find_existing_entry(key);
diff --git a/src/caliper/Blackboard.h b/src/caliper/Blackboard.h
index 2fb6984..5731dc5 100644
--- a/src/caliper/Blackboard.h
+++ b/src/caliper/Blackboard.h
@@ -90,6 +90,9 @@ public:
     void set(cali_id_t key, const Entry& value, bool include_in_snapshots);
     void del(cali_id_t key);
 
+    /// \brief Remove all entries
+    void clear();
+
     Entry exchange(cali_id_t key, const Entry& value, bool include_in_snapshots);
 
     void snapshot(SnapshotBuilder& rec) const;
diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index cdb892f..2c9f64b 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -266,6 +266,16 @@ struct Caliper::ThreadData {
             print_detailed_stats(Log(2).stream());
     }
 
+    // Prepare for use by another thread
+    void reset()
+    {
+        thread_blackboard.clear();
+        process_snapshot.reset();
+
+        process_bb_count = -1;
+        stack_error      = false;
+    }
+
     void print_detailed_stats(std::ostream& os)
     {
         tree.print_statistics(os << "Releasing Caliper thread data: \n") << std::endl;
@@ -330,6 +340,8 @@ struct Caliper::GlobalData {
     size_t max_active_channels;
 
     std::vector<ThreadData*> thread_data;
+    // data of threads that have ended, for use by new threads
+    std::vector<ThreadData*> released_thread_data;
     std::mutex               thread_data_lock;
 
     // --- constructor
@@ -488,6 +500,30 @@ struct Caliper::GlobalData {
         return t;
     }
 
+    // Set up the calling thread's data, with the memory of a thread that has ended if possible
+    ThreadData* acquire_thread_data()
+    {
+        {
+            std::lock_guard<std::mutex> g(thread_data_lock);
+
+            if (!released_thread_data.empty()) {
+                tObj.t_ptr = released_thread_data.back();
+                released_thread_data.pop_back();
+                return tObj.t_ptr;
+            }
+        }
+
+        return add_thread_data(new ThreadData);
+    }
+
+    void release_thread_data(ThreadData* t)
+    {
+        t->reset();
+
+        std::lock_guard<std::mutex> g(thread_data_lock);
+        released_thread_data.push_back(t);
+    }
+
     //   S_TLSObject uses C++ thread-local storage to hold a pointer to the
     // thread-local data. This is for lookup only, GlobalData owns all
     // ThreadData objects. The object also notifies us of thread destruction
@@ -512,7 +548,11 @@ struct Caliper::GlobalData {
                     c.finalize();
                     delete gObj.g_ptr.load();
                 } else {
+                    ThreadData* ptr = t_ptr;
+
                     c.release_thread();
+                    t_ptr = nullptr;
+                    gObj.g_ptr.load()->release_thread_data(ptr);
                 }
             }
 
@@ -1605,7 +1645,7 @@ Caliper Caliper::instance()
     tPtr = GlobalData::tObj.t_ptr;
 
     if (!tPtr) {
-        tPtr = gPtr->add_thread_data(new ThreadData);
+        tPtr = gPtr->acquire_thread_data();
         Caliper c(gPtr, tPtr, false);
 
         for (auto& channel : gPtr->all_channels)
-- 
2.43.0


From 8426fd3755fa683df1fdfc1e582cdfda3ab166dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:42 +0000
Subject: [PATCH 061/110] fix: release the thread-local entries of deleted
 channels

---
 include/caliper/Caliper.h            |  7 +++++++
 src/caliper/Caliper.cpp              | 11 +++++++++++
 src/services/aggregate/Aggregate.cpp |  2 ++
 src/services/timer/Timer.cpp         |  4 +++-
 src/services/trace/Trace.cpp         |  2 ++
 src/services/validator/validator.cpp |  4 +++-
 6 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/include/caliper/Caliper.h b/include/caliper/Caliper.h
index 61219d4..c4dc5ac 100644
--- a/include/caliper/Caliper.h
+++ b/include/caliper/Caliper.h
@@ -536,6 +536,13 @@ public:
     /// \ref Caliper::get(const Attribute&) should be used instead.
     Entry get_blackboard_entry(const Attribute& attr);
 
+    /// \brief Remove the given thread-scope attribute from all threads.
+    ///
+    ///   Services with channel-specific thread-local data must call this for
+    /// their attribute when the channel is deleted. Like deleting channels,
+    /// it is not threadsafe. Internal use.
+    void release_thread_entries(const Attribute& attr);
+
     /// \brief Retrieve the current path entry from the blackboard.
     Entry get_path_node();
 
diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index 2c9f64b..1d9fa61 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -1338,6 +1338,17 @@ Entry Caliper::get(const Attribute& attr)
     return Entry();
 }
 
+void Caliper::release_thread_entries(const Attribute& attr)
+{
+    cali_id_t key = get_blackboard_key(attr.id(), attr.properties());
+
+    std::lock_guard<::siglock>  g(sT->lock);
+    std::lock_guard<std::mutex> gtd(sG->thread_data_lock);
+
+    for (ThreadData* t : sG->thread_data)
+        t->thread_blackboard.del(key);
+}
+
 Entry Caliper::get_blackboard_entry(const Attribute& attr)
 {
     int prop  = attr.properties();
diff --git a/src/services/aggregate/Aggregate.cpp b/src/services/aggregate/Aggregate.cpp
index 7d7eab5..d890978 100644
--- a/src/services/aggregate/Aggregate.cpp
+++ b/src/services/aggregate/Aggregate.cpp
@@ -330,6 +330,8 @@ class Aggregate
 
     void finish_cb(Caliper* c, Channel* chn)
     {
+        c->release_thread_entries(m_tdb_attr);
+
         if (m_num_dropped_snapshots > 0)
             Log(1).stream() << m_channel_name << ": Aggregate: dropped " << m_num_dropped_snapshots << " snapshots."
                             << std::endl;
diff --git a/src/services/timer/Timer.cpp b/src/services/timer/Timer.cpp
index 3ae3eb5..6aab820 100644
--- a/src/services/timer/Timer.cpp
+++ b/src/services/timer/Timer.cpp
@@ -159,8 +159,10 @@ class TimerService
         acquire_timerinfo(c);
     }
 
-    void finish_cb(Caliper*, Channel* chn)
+    void finish_cb(Caliper* c, Channel* chn)
     {
+        c->release_thread_entries(timerinfo_attr);
+
         if (n_stack_errors > 0)
             Log(1).stream() << chn->name() << ": timestamp: Encountered " << n_stack_errors.load()
                             << " inclusive time stack errors!" << std::endl;
diff --git a/src/services/trace/Trace.cpp b/src/services/trace/Trace.cpp
index 872581e..80b6a1a 100644
--- a/src/services/trace/Trace.cpp
+++ b/src/services/trace/Trace.cpp
@@ -264,6 +264,8 @@ class Trace
 
     void finish_cb(Caliper* c, Channel* chn)
     {
+        c->release_thread_entries(tbuf_attr);
+
         if (dropped_snapshots > 0)
             Log(1).stream() << chn->name() << ": Trace: dropped " << dropped_snapshots << " snapshots." << std::endl;
         if (Log::verbosity() >= 2)
diff --git a/src/services/validator/validator.cpp b/src/services/validator/validator.cpp
index 9d86b01..5906874 100644
--- a/src/services/validator/validator.cpp
+++ b/src/services/validator/validator.cpp
@@ -207,8 +207,10 @@ class ValidatorService
         return tstack;
     }
 
-    void finalize_cb(Caliper*, Channel* chn)
+    void finalize_cb(Caliper* c, Channel* chn)
     {
+        c->release_thread_entries(thread_stack_attr);
+
         {
             std::lock_guard<std::mutex> g(proc_stack_mutex);
 
-- 
2.43.0


From 3eb94d67d0a8181df7a6969c5705e187a21b217d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:36 +0000
Subject: [PATCH 062/110] fix: do not crash when the context tree or its memory
 pool are full

Nodes that cannot be created for lack of space made Caliper crash. Now the
error is reported, and the affected thread stops tracking regions.
---
 include/caliper/SnapshotRecord.h     |   8 +-
 include/caliper/common/Entry.h       |   2 +-
 src/caliper/Caliper.cpp              | 125 ++++++++++++++++++++-------
 src/caliper/MetadataTree.cpp         |  24 +++--
 src/services/validator/validator.cpp |   6 +-
 5 files changed, 120 insertions(+), 45 deletions(-)

diff --git a/include/caliper/SnapshotRecord.h b/include/caliper/SnapshotRecord.h
index 172b32e..f9b8e82 100644
--- a/include/caliper/SnapshotRecord.h
+++ b/include/caliper/SnapshotRecord.h
@@ -102,6 +102,8 @@ public:
 
     void append(const Entry& e)
     {
+        if (e.empty()) // e.g. when its node or attribute could not be created
+            return;
         if (m_len < m_capacity)
             m_data[m_len++] = e;
         else
@@ -110,10 +112,8 @@ public:
 
     void append(size_t n, const Entry* entries)
     {
-        size_t num_copied = std::min(n, m_capacity - m_len);
-        std::copy_n(entries, num_copied, m_data + m_len);
-        m_len += num_copied;
-        m_skipped += n - num_copied;
+        for (size_t i = 0; i < n; ++i)
+            append(entries[i]);
     }
 
     void append(const Attribute& attr, const Variant& val) { append(Entry(attr, val)); }
diff --git a/include/caliper/common/Entry.h b/include/caliper/common/Entry.h
index 2f8a529..96ee28f 100644
--- a/include/caliper/common/Entry.h
+++ b/include/caliper/common/Entry.h
@@ -41,7 +41,7 @@ public:
     constexpr Entry() : m_node(nullptr) {}
 
     /// @brief Construct a reference entry from \a node
-    Entry(Node* node) : m_node(node), m_value(node->data()) {}
+    Entry(Node* node) : m_node(node), m_value(node ? node->data() : Variant()) {}
 
     /// @brief Construct an immediate entry from \a attr, \a val
     Entry(const Attribute& attr, const Variant& val) : m_node(attr.node()), m_value(val) {}
diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index 1d9fa61..b81c791 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -718,7 +718,15 @@ inline BlackboardEntry load_current_entry(const Attribute& attr, cali_id_t key,
     return { merged_entry, entry };
 }
 
-inline void handle_begin(
+void log_tree_error(const Attribute& attr)
+{
+    Log(0).stream() << "Could not create a context tree node for " << attr.name()
+                    << ": The context tree or its memory pool are full!\n  Ceasing region tracking!" << std::endl;
+}
+
+// The blackboard update functions return false if there was no space for the new entry
+
+inline bool handle_begin(
     const Attribute& attr,
     const Variant&   value,
     int              prop,
@@ -730,12 +738,20 @@ inline void handle_begin(
         blackboard.set(attr.id(), Entry(attr, value), !(prop & CALI_ATTR_HIDDEN));
     } else {
         cali_id_t key   = get_blackboard_key_for_reference_entry(prop);
-        Entry     entry = Entry(tree.get_child(attr, value, blackboard.get(key).node()));
-        blackboard.set(key, entry, !(prop & CALI_ATTR_HIDDEN));
+        Node*     node = tree.get_child(attr, value, blackboard.get(key).node());
+
+        if (!node) {
+            log_tree_error(attr);
+            return false;
+        }
+
+        blackboard.set(key, Entry(node), !(prop & CALI_ATTR_HIDDEN));
     }
+
+    return true;
 }
 
-inline void handle_end(
+inline bool handle_end(
     const Attribute&       attr,
     int                    prop,
     const BlackboardEntry& current,
@@ -755,12 +771,19 @@ inline void handle_end(
             if (current.merged_entry.node() != current.entry.node())
                 node = tree.remove_first_in_path(current.merged_entry.node(), attr);
 
+            if (!node) {
+                log_tree_error(attr);
+                return false;
+            }
+
             blackboard.set(key, Entry(node), !(prop & CALI_ATTR_HIDDEN));
         }
     }
+
+    return true;
 }
 
-inline void handle_set(
+inline bool handle_set(
     const Attribute& attr,
     const Variant&   value,
     int              prop,
@@ -772,9 +795,17 @@ inline void handle_set(
         blackboard.set(attr.id(), Entry(attr, value), !(prop & CALI_ATTR_HIDDEN));
     else {
         cali_id_t key  = get_blackboard_key_for_reference_entry(prop);
-        Node*     node = blackboard.get(key).node();
-        blackboard.set(key, tree.replace_first_in_path(node, attr, value), !(prop & CALI_ATTR_HIDDEN));
+        Node*     node = tree.replace_first_in_path(blackboard.get(key).node(), attr, value);
+
+        if (!node) {
+            log_tree_error(attr);
+            return false;
+        }
+
+        blackboard.set(key, Entry(node), !(prop & CALI_ATTR_HIDDEN));
     }
+
+    return true;
 }
 
 } // namespace
@@ -814,7 +845,7 @@ Attribute Caliper::create_attribute(
 
     // Add metadata nodes.
     for (int n = 0; n < n_meta; ++n)
-        node = sT->tree.get_child(meta_attr[n], meta_val[n], node);
+        node = node ? sT->tree.get_child(meta_attr[n], meta_val[n], node) : nullptr;
 
     // Look for attribute properties in presets
     auto propit = sG->attribute_prop_presets.find(name);
@@ -841,8 +872,16 @@ Attribute Caliper::create_attribute(
     Attribute name_attr = Attribute::make_attribute(sT->tree.node(Attribute::NAME_ATTR_ID));
     Attribute prop_attr = Attribute::make_attribute(sT->tree.node(Attribute::PROP_ATTR_ID));
 
-    node = sT->tree.get_child(prop_attr, Variant(prop), node);
-    node = sT->tree.get_child(name_attr, Variant(CALI_TYPE_STRING, name.data(), name.size()), node);
+    if (node)
+        node = sT->tree.get_child(prop_attr, Variant(prop), node);
+    if (node)
+        node = sT->tree.get_child(name_attr, Variant(CALI_TYPE_STRING, name.data(), name.size()), node);
+
+    if (!node) {
+        Log(0).stream() << "Could not create attribute " << name
+                        << ": The context tree or its memory pool are full!" << std::endl;
+        return Attribute();
+    }
 
     {
         // Check again if attribute already exists; might have been created by
@@ -1065,7 +1104,7 @@ void Caliper::clear(Channel* chn)
 
 void Caliper::begin(const Attribute& attr, const Variant& data)
 {
-    if (sT->stack_error)
+    if (sT->stack_error || !attr)
         return;
 
     int prop  = attr.properties();
@@ -1083,11 +1122,13 @@ void Caliper::begin(const Attribute& attr, const Variant& data)
         }
     }
 
-    if (scope == CALI_ATTR_SCOPE_THREAD)
-        handle_begin(attr, data, prop, sT->thread_blackboard, sT->tree);
-    else if (scope == CALI_ATTR_SCOPE_PROCESS) {
+    if (scope == CALI_ATTR_SCOPE_THREAD) {
+        if (!handle_begin(attr, data, prop, sT->thread_blackboard, sT->tree))
+            sT->stack_error = true;
+    } else if (scope == CALI_ATTR_SCOPE_PROCESS) {
         std::lock_guard<std::mutex> gbb(sG->process_blackboard_lock);
-        handle_begin(attr, data, prop, sG->process_blackboard, sT->tree);
+        if (!handle_begin(attr, data, prop, sG->process_blackboard, sT->tree))
+            sT->stack_error = true;
     }
 
     // invoke callbacks
@@ -1101,7 +1142,7 @@ void Caliper::begin(const Attribute& attr, const Variant& data)
 
 void Caliper::end(const Attribute& attr)
 {
-    if (sT->stack_error)
+    if (sT->stack_error || !attr)
         return;
 
     int prop  = attr.properties();
@@ -1135,9 +1176,10 @@ void Caliper::end(const Attribute& attr)
         }
     }
 
-    if (scope == CALI_ATTR_SCOPE_THREAD)
-        handle_end(attr, prop, current, key, sT->thread_blackboard, sT->tree);
-    else {
+    if (scope == CALI_ATTR_SCOPE_THREAD) {
+        if (!handle_end(attr, prop, current, key, sT->thread_blackboard, sT->tree))
+            sT->stack_error = true;
+    } else {
         std::lock_guard<std::mutex> gbb(sG->process_blackboard_lock);
 
         // Other threads may have updated the process blackboard in the meantime
@@ -1148,13 +1190,14 @@ void Caliper::end(const Attribute& attr)
             return;
         }
 
-        handle_end(attr, prop, current, key, sG->process_blackboard, sT->tree);
+        if (!handle_end(attr, prop, current, key, sG->process_blackboard, sT->tree))
+            sT->stack_error = true;
     }
 }
 
 void Caliper::end_with_value_check(const Attribute& attr, const Variant& data)
 {
-    if (sT->stack_error)
+    if (sT->stack_error || !attr)
         return;
 
     int prop  = attr.properties();
@@ -1189,9 +1232,10 @@ void Caliper::end_with_value_check(const Attribute& attr, const Variant& data)
         }
     }
 
-    if (scope == CALI_ATTR_SCOPE_THREAD)
-        handle_end(attr, prop, current, key, sT->thread_blackboard, sT->tree);
-    else {
+    if (scope == CALI_ATTR_SCOPE_THREAD) {
+        if (!handle_end(attr, prop, current, key, sT->thread_blackboard, sT->tree))
+            sT->stack_error = true;
+    } else {
         std::lock_guard<std::mutex> gbb(sG->process_blackboard_lock);
 
         // Other threads may have updated the process blackboard in the meantime
@@ -1202,13 +1246,14 @@ void Caliper::end_with_value_check(const Attribute& attr, const Variant& data)
             return;
         }
 
-        handle_end(attr, prop, current, key, sG->process_blackboard, sT->tree);
+        if (!handle_end(attr, prop, current, key, sG->process_blackboard, sT->tree))
+            sT->stack_error = true;
     }
 }
 
 void Caliper::set(const Attribute& attr, const Variant& data)
 {
-    if (sT->stack_error)
+    if (sT->stack_error || !attr)
         return;
 
     int prop  = attr.properties();
@@ -1226,11 +1271,13 @@ void Caliper::set(const Attribute& attr, const Variant& data)
         }
     }
 
-    if (scope == CALI_ATTR_SCOPE_THREAD)
-        handle_set(attr, data, prop, sT->thread_blackboard, sT->tree);
-    else if (scope == CALI_ATTR_SCOPE_PROCESS) {
+    if (scope == CALI_ATTR_SCOPE_THREAD) {
+        if (!handle_set(attr, data, prop, sT->thread_blackboard, sT->tree))
+            sT->stack_error = true;
+    } else if (scope == CALI_ATTR_SCOPE_PROCESS) {
         std::lock_guard<std::mutex> gbb(sG->process_blackboard_lock);
-        handle_set(attr, data, prop, sG->process_blackboard, sT->tree);
+        if (!handle_set(attr, data, prop, sG->process_blackboard, sT->tree))
+            sT->stack_error = true;
     }
 }
 
@@ -1244,6 +1291,9 @@ void Caliper::async_event(SnapshotView info)
 
 void Caliper::begin(ChannelBody* chB, const Attribute& attr, const Variant& data)
 {
+    if (!attr)
+        return;
+
     int  prop       = attr.properties();
     bool run_events = !(prop & CALI_ATTR_SKIP_EVENTS);
 
@@ -1255,7 +1305,8 @@ void Caliper::begin(ChannelBody* chB, const Attribute& attr, const Variant& data
 
     {
         std::lock_guard<std::mutex> gbb(chB->channel_blackboard_lock);
-        handle_begin(attr, data, prop, chB->channel_blackboard, sT->tree);
+        if (!handle_begin(attr, data, prop, chB->channel_blackboard, sT->tree))
+            sT->stack_error = true;
     }
 
     // invoke callbacks
@@ -1265,6 +1316,9 @@ void Caliper::begin(ChannelBody* chB, const Attribute& attr, const Variant& data
 
 void Caliper::end(ChannelBody* chB, const Attribute& attr)
 {
+    if (!attr)
+        return;
+
     int  prop       = attr.properties();
     bool run_events = !(prop & CALI_ATTR_SKIP_EVENTS);
 
@@ -1298,12 +1352,16 @@ void Caliper::end(ChannelBody* chB, const Attribute& attr)
             return;
         }
 
-        handle_end(attr, prop, current, key, chB->channel_blackboard, sT->tree);
+        if (!handle_end(attr, prop, current, key, chB->channel_blackboard, sT->tree))
+            sT->stack_error = true;
     }
 }
 
 void Caliper::set(ChannelBody* chB, const Attribute& attr, const Variant& data)
 {
+    if (!attr)
+        return;
+
     int  prop       = attr.properties();
     bool run_events = !(prop & CALI_ATTR_SKIP_EVENTS);
 
@@ -1314,7 +1372,8 @@ void Caliper::set(ChannelBody* chB, const Attribute& attr, const Variant& data)
         chB->events.pre_set_evt(this, chB, attr, data);
 
     std::lock_guard<std::mutex> gbb(chB->channel_blackboard_lock);
-    handle_set(attr, data, prop, chB->channel_blackboard, sT->tree);
+    if (!handle_set(attr, data, prop, chB->channel_blackboard, sT->tree))
+        sT->stack_error = true;
 }
 
 // --- Query
diff --git a/src/caliper/MetadataTree.cpp b/src/caliper/MetadataTree.cpp
index 319c72f..4a3380b 100644
--- a/src/caliper/MetadataTree.cpp
+++ b/src/caliper/MetadataTree.cpp
@@ -198,9 +198,13 @@ Node* MetadataTree::create_child(const Attribute& attr, const Variant& value, No
 
     void* ptr = nullptr;
 
-    if (value.has_unmanaged_data())
+    if (value.has_unmanaged_data()) {
         ptr = m_mempool.allocate(value.size() + 1 /* ensure 0-padding so we can safely hand out string ptrs */, alignof(uint64_t) /* blobs may hold ids */);
 
+        if (!ptr)
+            return nullptr;
+    }
+
     size_t      index = m_nodeblock->index;
     GlobalData* g     = mG.load();
 
@@ -243,9 +247,13 @@ Node* MetadataTree::get_path(size_t n, const Node* nodelist[], Node* parent = nu
     Node* node = parent;
 
     for (size_t i = 0; i < n; ++i)
-        if (nodelist[i])
+        if (nodelist[i]) {
             node = get_or_copy_node(nodelist[i], node);
 
+            if (!node)
+                return nullptr;
+        }
+
     return node;
 }
 
@@ -286,7 +294,7 @@ Node* MetadataTree::copy_path_without_attribute(const Attribute& attr, Node* nod
 
     Node* tmp = copy_path_without_attribute(attr, node->parent(), parent);
 
-    if (attr.id() != node->attribute())
+    if (tmp && attr.id() != node->attribute())
         tmp = get_or_copy_node(node, tmp);
 
     return tmp;
@@ -307,9 +315,13 @@ Node* MetadataTree::remove_first_in_path(Node* path, const Attribute& attr)
 
 Node* MetadataTree::replace_first_in_path(Node* path, const Attribute& attr, const Variant& data)
 {
-    if (path)
+    if (path) {
         path = remove_first_in_path(path, attr);
 
+        if (!path)
+            return nullptr;
+    }
+
     return get_child(attr, data, path);
 }
 
@@ -323,7 +335,9 @@ Node* MetadataTree::replace_all_in_path(Node* path, const Attribute& attr, size_
 
     parent = parent ? parent->parent() : root();
 
-    return get_path(attr, n, data, copy_path_without_attribute(attr, path, parent));
+    parent = copy_path_without_attribute(attr, path, parent);
+
+    return parent ? get_path(attr, n, data, parent) : nullptr;
 }
 
 Node* MetadataTree::get_child(const Attribute& attr, const Variant& val, Node* parent)
diff --git a/src/services/validator/validator.cpp b/src/services/validator/validator.cpp
index 5906874..3a87f9d 100644
--- a/src/services/validator/validator.cpp
+++ b/src/services/validator/validator.cpp
@@ -64,8 +64,10 @@ class ValidatorService
         {
             Variant v_copy = value;
 
-            if (!attr.store_as_value())
-                v_copy = c->make_tree_entry(attr, value, &m_root_node)->data();
+            if (!attr.store_as_value()) {
+                const Node* node = c->make_tree_entry(attr, value, &m_root_node);
+                v_copy = node ? node->data() : Variant();
+            }
 
             m_region_stack[attr].push_back(v_copy);
         }
-- 
2.43.0


From 4cf807b76362c10c887d56e6e2585ef40a1facf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:47 +0000
Subject: [PATCH 063/110] fix: do not process entries of attributes that could
 not be created

---
 src/services/aggregate/AggregationDB.cpp | 3 +++
 src/services/monitor/Timeseries.cpp      | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/services/aggregate/AggregationDB.cpp b/src/services/aggregate/AggregationDB.cpp
index db53c0c..9df190c 100644
--- a/src/services/aggregate/AggregationDB.cpp
+++ b/src/services/aggregate/AggregationDB.cpp
@@ -168,6 +168,9 @@ size_t AggregationDB::flush(const AttributeInfo& info, Caliper* c, SnapshotFlush
         rec.push_back(Entry(info.count_attr, cali_make_variant_from_uint(entry.count)));
         rec.push_back(Entry(info.slot_attr, cali_make_variant_from_uint(num_written)));
 
+        // --- remove entries whose attributes could not be created
+        rec.erase(std::remove_if(rec.begin(), rec.end(), [](const Entry& e) { return e.empty(); }), rec.end());
+
         // --- write snapshot record
         proc_fn(*c, rec);
         ++num_written;
diff --git a/src/services/monitor/Timeseries.cpp b/src/services/monitor/Timeseries.cpp
index ed0d70b..64ed961 100644
--- a/src/services/monitor/Timeseries.cpp
+++ b/src/services/monitor/Timeseries.cpp
@@ -10,6 +10,7 @@
 
 #include "caliper/common/Log.h"
 
+#include <algorithm>
 #include <array>
 #include <chrono>
 #include <vector>
@@ -60,6 +61,9 @@ class TimeseriesService
                 rec.insert(rec.end(), info.begin(), info.end());
                 rec.insert(rec.end(), ts_entries.begin(), ts_entries.end());
 
+                // remove entries whose attributes could not be created
+                rec.erase(std::remove_if(rec.begin(), rec.end(), [](const Entry& e) { return e.empty(); }), rec.end());
+
                 m_channel.events().process_snapshot(c, SnapshotView(), SnapshotView(rec.size(), rec.data()));
             }
         );
-- 
2.43.0


From 860cb1e41347d47637b252c6eef11054a08b3cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:52 +0000
Subject: [PATCH 064/110] fix: wait for snapshots in progress before flushing
 or clearing another thread's buffers

A flush or clear operation told the other threads to drop new snapshots, but
accessed their aggregation and trace buffers while a snapshot was still
being processed there. Flush and clear operations of several threads on the
aggregation buffers could also run concurrently.
---
 src/services/aggregate/Aggregate.cpp | 42 ++++++++++++++++++++++----
 src/services/trace/Trace.cpp         | 45 ++++++++++++++++++++++++----
 2 files changed, 76 insertions(+), 11 deletions(-)

diff --git a/src/services/aggregate/Aggregate.cpp b/src/services/aggregate/Aggregate.cpp
index d890978..21ec02a 100644
--- a/src/services/aggregate/Aggregate.cpp
+++ b/src/services/aggregate/Aggregate.cpp
@@ -21,6 +21,7 @@
 #include <memory>
 #include <mutex>
 #include <sstream>
+#include <thread>
 
 using namespace aggregate;
 using namespace cali;
@@ -48,6 +49,7 @@ class Aggregate
         //
 
         std::atomic<bool> stopped;
+        std::atomic<bool> busy;
         std::atomic<bool> retired;
 
         ThreadDB* next = nullptr;
@@ -63,7 +65,32 @@ class Aggregate
                 prev->next = next;
         }
 
-        ThreadDB(Caliper* c) : stopped(false), retired(false), db(c) {}
+        //   Called by the writer before and after it modifies the DB. The
+        // writer must drop the snapshot if the DB is stopped.
+        bool begin_write()
+        {
+            busy.store(true);
+
+            if (stopped.load()) {
+                busy.store(false);
+                return false;
+            }
+
+            return true;
+        }
+
+        void end_write() { busy.store(false); }
+
+        //   Stop the writer, and wait until it is done with the current snapshot
+        void stop()
+        {
+            stopped.store(true);
+
+            while (busy.load())
+                std::this_thread::yield();
+        }
+
+        ThreadDB(Caliper* c) : stopped(false), busy(false), retired(false), db(c) {}
     };
 
     std::string m_channel_name;
@@ -71,6 +98,8 @@ class Aggregate
     ThreadDB*      m_tdb_list = nullptr;
     util::spinlock m_tdb_lock;
 
+    std::mutex m_flush_lock;
+
     //   Attributes can be created in one thread while other threads process
     // snapshots. Therefore, we never modify a published AttributeInfo object:
     // updates make a modified copy, and outdated versions are kept until the
@@ -189,6 +218,7 @@ class Aggregate
 
     void flush_cb(Caliper* c, SnapshotFlushFn proc_fn)
     {
+        std::lock_guard<std::mutex> g_flush(m_flush_lock);
         ThreadDB* tdb = nullptr;
 
         {
@@ -199,7 +229,7 @@ class Aggregate
         size_t num_written = 0;
 
         for (; tdb; tdb = tdb->next) {
-            tdb->stopped.store(true);
+            tdb->stop();
             num_written += tdb->db.flush(attr_info(), c, proc_fn);
             tdb->stopped.store(false);
         }
@@ -209,6 +239,7 @@ class Aggregate
 
     void clear_cb(Caliper* c, Channel* chn)
     {
+        std::lock_guard<std::mutex> g_flush(m_flush_lock);
         ThreadDB* tdb = nullptr;
 
         {
@@ -223,7 +254,7 @@ class Aggregate
         size_t max_hash_len   = 0;
 
         while (tdb) {
-            tdb->stopped.store(true);
+            tdb->stop();
 
             num_entries += tdb->db.num_entries();
             num_kernels += tdb->db.num_kernels();
@@ -270,9 +301,10 @@ class Aggregate
     {
         ThreadDB* tdb = acquire_tdb(c, !c->is_signal());
 
-        if (tdb && !tdb->stopped.load())
+        if (tdb && tdb->begin_write()) {
             tdb->db.process_snapshot(c, rec, attr_info());
-        else
+            tdb->end_write();
+        } else
             ++m_num_dropped_snapshots;
     }
 
diff --git a/src/services/trace/Trace.cpp b/src/services/trace/Trace.cpp
index 80b6a1a..1463bc1 100644
--- a/src/services/trace/Trace.cpp
+++ b/src/services/trace/Trace.cpp
@@ -19,6 +19,7 @@
 #include <atomic>
 #include <cstring>
 #include <mutex>
+#include <thread>
 
 using namespace trace;
 using namespace cali;
@@ -32,16 +33,44 @@ class Trace
 
     struct TraceBuffer {
         std::atomic<bool> stopped;
+        std::atomic<bool> busy;
         std::atomic<bool> retired;
 
         TraceBufferChunk* chunks;
         TraceBuffer*      next;
         TraceBuffer*      prev;
 
-        TraceBuffer(size_t s) : stopped(false), retired(false), chunks(new TraceBufferChunk(s)), next(0), prev(0) {}
+        TraceBuffer(size_t s) : stopped(false), busy(false), retired(false), chunks(new TraceBufferChunk(s)), next(0), prev(0) {}
 
         ~TraceBuffer() { delete chunks; }
 
+        //   Called by the writer before and after it modifies the buffer. The
+        // writer must drop the snapshot if the buffer is stopped.
+        bool begin_write()
+        {
+            busy.store(true);
+
+            if (stopped.load()) {
+                busy.store(false);
+                return false;
+            }
+
+            return true;
+        }
+
+        void end_write() { busy.store(false); }
+
+        //   Stop the writer, and wait until it is done with the current snapshot
+        bool stop()
+        {
+            bool was_stopped = stopped.exchange(true);
+
+            while (busy.load())
+                std::this_thread::yield();
+
+            return was_stopped;
+        }
+
         void unlink()
         {
             if (next)
@@ -54,7 +83,7 @@ class Trace
     BufferPolicy policy     = BufferPolicy::Grow;
     size_t       buffersize = 2 * 1024 * 1024;
 
-    size_t dropped_snapshots = 0;
+    std::atomic<size_t> dropped_snapshots { 0 };
 
     unsigned num_acquired = 0;
     unsigned num_released = 0;
@@ -100,6 +129,7 @@ class Trace
         switch (policy) {
         case BufferPolicy::Stop:
             tbuf->stopped.store(true);
+            tbuf->end_write();
             Log(1).stream() << m_channel.name() << ": trace: Trace buffer full, recording stopped!\n";
             return 0;
 
@@ -110,6 +140,7 @@ class Trace
                 if (!newchunk) {
                     Log(0).stream() << m_channel.name() << ": trace: Unable to allocate new trace buffer, recording stopped!\n";
                     tbuf->stopped.store(true);
+                    tbuf->end_write();
                     return 0;
                 }
 
@@ -122,9 +153,10 @@ class Trace
         case BufferPolicy::Flush:
             {
                 Log(1).stream() << m_channel.name() << ": trace: Trace buffer full, flushing.\n";
+                tbuf->end_write(); // we, or other threads, need to stop and flush this buffer
                 c->flush_and_write(m_channel.body(), SnapshotView());
                 c->clear(&m_channel);
-                return tbuf;
+                return tbuf->begin_write() ? tbuf : nullptr;
             }
 
         } // switch (policy)
@@ -136,7 +168,7 @@ class Trace
     {
         TraceBuffer* tbuf = acquire_tbuf(c, !c->is_signal());
 
-        if (!tbuf || tbuf->stopped.load()) {
+        if (!tbuf || !tbuf->begin_write()) {
             ++dropped_snapshots;
             return;
         }
@@ -147,6 +179,7 @@ class Trace
             return;
 
         tbuf->chunks->save_snapshot(rec);
+        tbuf->end_write();
     }
 
     void flush_cb(Caliper* c, SnapshotFlushFn proc_fn)
@@ -165,7 +198,7 @@ class Trace
             // Stop tracing while we flush: writers won't block
             // but just drop the snapshot
 
-            bool was_stopped = tbuf->stopped.exchange(true);
+            bool was_stopped = tbuf->stop();
             num_written += tbuf->chunks->flush(c, proc_fn);
             tbuf->stopped.store(was_stopped);
         }
@@ -186,7 +219,7 @@ class Trace
         TraceBufferChunk::UsageInfo aggregate_info { 0, 0, 0 };
 
         while (tbuf) {
-            tbuf->stopped.store(true);
+            tbuf->stop();
 
             // Accumulate usage statistics before they're reset
             TraceBufferChunk::UsageInfo info = tbuf->chunks->info();
-- 
2.43.0


From ccc9d94c4f520088b5855a5444db0612b544aeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:57 +0000
Subject: [PATCH 065/110] fix: count I/O callbacks thread-safely

---
 src/services/io/IOService.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/services/io/IOService.cpp b/src/services/io/IOService.cpp
index f7805cf..44f6c21 100644
--- a/src/services/io/IOService.cpp
+++ b/src/services/io/IOService.cpp
@@ -11,6 +11,7 @@
 #include "caliper/common/Log.h"
 
 #include <string.h>
+#include <atomic>
 #include <cstddef>
 #include <memory>
 #include <unordered_map>
@@ -28,8 +29,8 @@ struct user_data_t {
 
 std::unordered_map<cali_id_t, std::unique_ptr<user_data_t>> curious_insts;
 
-int num_io_callbacks;
-int num_failed_io_callbacks;
+std::atomic<int> num_io_callbacks;
+std::atomic<int> num_failed_io_callbacks;
 
 Attribute io_region_attr;
 Attribute io_filesystem_attr;
-- 
2.43.0


From 353e95aa05bb448863fa788dfd9892bc1a3d82f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:35 +0000
Subject: [PATCH 066/110] fix: attribute files to the mount they are on,
 without strtok

---
 src/services/io/CurIOus/src/mount_tree.c | 195 ++++++++---------------
 1 file changed, 66 insertions(+), 129 deletions(-)

diff --git a/src/services/io/CurIOus/src/mount_tree.c b/src/services/io/CurIOus/src/mount_tree.c
index 7c1d33f..a4c68af 100644
--- a/src/services/io/CurIOus/src/mount_tree.c
+++ b/src/services/io/CurIOus/src/mount_tree.c
@@ -2,188 +2,125 @@
 #include <string.h>
 #include <stdlib.h>
 #include <errno.h>
+#include <mntent.h>
 
 #include "mount_tree.h"
 
 #include "dynamic_array.h"
 
-#define ROOT_PATH "/"
-
 /*********
  * Types *
  *********/
 
-typedef struct mount_tree {
-    char*                   name;
-    char*                   full_path;
-    char*                   filesystem;
-    curious_dynamic_array_t children;
-} mount_tree_t;
+typedef struct mount {
+    char*  full_path;
+    size_t path_len;
+    char*  filesystem;
+} mount_t;
 
 /**********************
  * Internal Functions *
  **********************/
-static void          create_mount_tree(mount_tree_t* self, char* name, char* full_path, char* filesystem);
-static void          destroy_mount_tree(mount_tree_t* self);
-static mount_tree_t* get_mount(char* full_path, char** name);
-static void          add_mount(char* full_path, char* filesystem);
-static int           compare_mount_tree_by_name(char* name, mount_tree_t* tree);
+static void     add_mount(const char* full_path, const char* filesystem);
+static mount_t* get_mount(const char* full_path);
+static void     destroy_mount(mount_t* self);
 
-static mount_tree_t root;
+static curious_dynamic_array_t mounts;
 
 void curious_init_mount_tree(void)
 {
-    create_mount_tree(&root, ROOT_PATH, ROOT_PATH, "");
-
-    FILE* mount_file = fopen("/proc/mounts", "r");
+    create_curious_dynamic_array(&mounts, 0, sizeof(mount_t));
 
-    ssize_t bytes_read;
-    char*   line = NULL;
-    size_t  size = 0;
-#define VAL_SEP " "
-    // Read every line in the list of mounts
-    while (0 < (bytes_read = getline(&line, &size, mount_file))) {
-        // Each line of /proc/mounts is a list of space-seperated values
-        // We don't care about the first value, so just skip it
-        strtok(line, VAL_SEP);
+    FILE* mount_file = setmntent("/proc/mounts", "r");
 
-        // The second element is the full path to the mount
-        char* full_path = strtok(NULL, VAL_SEP);
+    if (NULL != mount_file) {
+        struct mntent entry;
+        char          buf[4096];
 
-        // The third element is the type of filesystem the mount uses
-        char* filesystem = strtok(NULL, VAL_SEP);
+        // Read every entry in the list of mounts
+        while (NULL != getmntent_r(mount_file, &entry, buf, sizeof(buf))) {
+            add_mount(entry.mnt_dir, entry.mnt_type);
+        }
 
-        add_mount(full_path, filesystem);
+        endmntent(mount_file);
     }
-
-    free(line);
-    fclose(mount_file);
 }
 
 void curious_finalize_mount_tree(void)
 {
-    destroy_mount_tree(&root);
+    destroy_curious_dynamic_array(&mounts, (free_f) destroy_mount);
 }
 
-void create_mount_tree(mount_tree_t* self, char* name, char* full_path, char* filesystem)
+void destroy_mount(mount_t* self)
 {
-    //printf("registering %s mount at %s\n", filesystem, full_path);
-
-    self->name       = strdup(name);
-    self->full_path  = strdup(full_path);
-    self->filesystem = strdup(filesystem);
-    create_curious_dynamic_array(&self->children, 0, sizeof(mount_tree_t));
-}
-
-void destroy_mount_tree(mount_tree_t* self)
-{
-    free(self->name);
     free(self->full_path);
     free(self->filesystem);
-    destroy_curious_dynamic_array(&self->children, (free_f) destroy_mount_tree);
 }
 
-mount_tree_t* get_mount(char* full_path, char** name)
+void add_mount(const char* full_path, const char* filesystem)
 {
-    if (0 == strcmp(full_path, ROOT_PATH)) {
-        return &root;
-    }
-
-    mount_tree_t* cur_mount = &root;
-    mount_tree_t* next_mount;
-#define DIR_SEP "/"
-    // Look at every path elemet (i.e. each level of directories) in the full path...
-    for (char* path_el = strtok(full_path, DIR_SEP); NULL != path_el; path_el = strtok(NULL, DIR_SEP)) {
-        // The name should always be the last path element we've looked at
-        if (NULL != name) {
-            *name = path_el;
-        }
+    mount_t mount;
 
-        // ...see if there's a mount one level down which matches the current path element
-        next_mount =
-            find_in_curious_dynamic_array(&cur_mount->children, path_el, (compare_f) compare_mount_tree_by_name);
-        // ...if we couldn't find a match, we've found the deepest relevant node,
-        // meaning that we're done
-        if (NULL == next_mount) {
-            return cur_mount;
-
-            // ...otherwise, we want to look at the childreen of the matching mount
-        } else {
-            cur_mount = next_mount;
-        }
-    }
+    mount.full_path  = strdup(full_path);
+    mount.path_len   = strlen(full_path);
+    mount.filesystem = strdup(filesystem);
 
-    return &root;
+    append_to_curious_dynamic_array(&mounts, &mount);
 }
 
-void add_mount(char* full_path, char* filesystem)
+// Find the deepest mount in the given absolute path. If several filesystems
+// are mounted at the same place, the last one listed is the visible one.
+mount_t* get_mount(const char* full_path)
 {
-    // If the path in question is to the root, no need to go looking;
-    // we should just set its filesystem now
-    if (0 == strcmp(full_path, ROOT_PATH)) {
-        // make sure we don't overwrite that first setup
-        // (the actual root entry is proper the first)
-        if (0 != strcmp(root.filesystem, "")) {
-            free(root.filesystem);
-            root.filesystem = strdup(filesystem);
-        }
+    mount_t* ret = NULL;
 
-        return;
-    }
+    for (int i = 0; i <= mounts.last_el; ++i) {
+        mount_t* mount = (mount_t*) get_from_curious_dynamic_array(&mounts, i);
+        size_t   len   = mount->path_len;
+
+        if (NULL != ret && len < ret->path_len)
+            continue;
+        if (0 != strncmp(full_path, mount->full_path, len))
+            continue;
+        // don't match /foobar with a mount at /foo
+        if (len > 1 && '/' != full_path[len] && '\0' != full_path[len])
+            continue;
 
-    char*         name         = NULL;
-    char*         path_copy    = strdup(full_path);
-    mount_tree_t* parent_mount = get_mount(path_copy, &name);
-
-    if (NULL == parent_mount) {
-        printf("No relevant mount found for %s\n", full_path);
-    } else if (0 != strcmp(name, parent_mount->name)) {
-        // Make a new child mount of the parent we found
-        mount_tree_t mount;
-        create_mount_tree(&mount, name, full_path, filesystem);
-        append_to_curious_dynamic_array(&parent_mount->children, &mount);
+        ret = mount;
     }
 
-    // wait until after the mount tree nodehas been created to free this copy,
-    // since name is part of that buffer
-    free(path_copy);
+    return ret;
 }
 
 void curious_get_filesystem(const char* path, char** filesystem, char** mount_point)
 {
-    // get_mount uses strtok, which mangeles its input string,
-    // so we only want to pass in a copy
-    char* path_copy;
+    *filesystem  = NULL;
+    *mount_point = NULL;
 
-    // if the path starts from the root, it's absolute already, so just copy it
-    if ('/' == path[0]) {
-        path_copy = strdup(path);
+    if (NULL == path)
+        return;
+
+    mount_t* mount     = NULL;
+    int      errno_sav = errno;
 
-        // otherwise, we need to atually find the absolute path
-        // and if we encounter an error, just set
+    // if the path starts from the root, it's absolute already
+    if ('/' == path[0]) {
+        mount = get_mount(path);
     } else {
-        path_copy = realpath(path, NULL);
+        // otherwise, we need to actually find the absolute path.
+        // if we can't resolve it, we can't find the proper mount
+        char* full_path = realpath(path, NULL);
 
-        // if we can't resolve the absolute path, we can't find the proper mount
-        if (NULL == path_copy) {
-            *filesystem  = NULL;
-            *mount_point = NULL;
-            return;
+        if (NULL != full_path) {
+            mount = get_mount(full_path);
+            free(full_path);
         }
     }
 
-    // Just find the deepest mount in the given path
-    // and return which filesystem it uses
-    mount_tree_t* mount = get_mount(path_copy, NULL);
-
-    // strdup and realpath both allocate a string, so we need to free it
-    free(path_copy);
-
-    *filesystem  = mount->filesystem;
-    *mount_point = mount->full_path;
-}
+    if (NULL != mount) {
+        *filesystem  = mount->filesystem;
+        *mount_point = mount->full_path;
+    }
 
-int compare_mount_tree_by_name(char* name, mount_tree_t* tree)
-{
-    return strcmp(name, tree->name);
+    errno = errno_sav;
 }
-- 
2.43.0


From f1de111eec34cd5e8472380bc07463616b2a0400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:03 +0000
Subject: [PATCH 067/110] fix: make the I/O wrappers' file registry thread-safe
 and release records of closed files

---
 src/services/io/CurIOus/src/file_registry.c | 137 ++++++-----
 src/services/io/CurIOus/src/file_registry.h |  12 +-
 src/services/io/CurIOus/src/wrappers.c      | 247 ++++++--------------
 3 files changed, 159 insertions(+), 237 deletions(-)

diff --git a/src/services/io/CurIOus/src/file_registry.c b/src/services/io/CurIOus/src/file_registry.c
index 89ac5ff..d17bd6e 100644
--- a/src/services/io/CurIOus/src/file_registry.c
+++ b/src/services/io/CurIOus/src/file_registry.c
@@ -1,3 +1,5 @@
+#include <errno.h>
+#include <pthread.h>
 #include <unistd.h>
 #include <stdlib.h>
 #include <string.h>
@@ -9,6 +11,9 @@
 
 static curious_dynamic_array_t file_registry;
 
+// protects file_registry
+static pthread_mutex_t file_registry_lock = PTHREAD_MUTEX_INITIALIZER;
+
 void curious_init_file_registry()
 {
     curious_init_mount_tree();
@@ -43,101 +48,113 @@ int curious_register_file_by_fd(int fd)
         return -1;
     }
 
-// Setup the basic I/O files
-// Assume we have at most a 6 digit file descriptor, since we can spare a few bytes
-#define DIGITS 6
-    char   fd_path[] = "/proc/self/fd/\0      ";
-    size_t len       = strlen(fd_path);
+    int errno_sav = errno;
 
 // We make the assumption that the mount will be in the first 256 bytes,
 // since that's longer than any line in /proc/mounts
 #define BUF_SIZE 256
+    char fd_path[32];
     char buf[BUF_SIZE];
 
-    // append fd to fd_path
-    int trunc_ret = snprintf(fd_path + len, DIGITS, "%d", fd);
-    if (trunc_ret < 0 || trunc_ret >= DIGITS)
-        fprintf(stderr, "Warning! err code: %i. fd (%i) may be truncated in fd_path (%s)\n", trunc_ret, fd, fd_path);
+    snprintf(fd_path, sizeof(fd_path), "/proc/self/fd/%d", fd);
 
     // see where the link stored at fd_path goes
-    size_t bytes_written = readlink(fd_path, buf, BUF_SIZE);
+    ssize_t bytes_written = readlink(fd_path, buf, BUF_SIZE - 1);
 
-    // readlink doesn't add a null terminator, so we should
-    if (bytes_written < BUF_SIZE - 1) {
-        buf[bytes_written] = '\0';
-    } else {
-        buf[BUF_SIZE - 1] = '\0';
+    if (bytes_written < 0) {
+        // don't keep information about a previous file with this fd
+        free(curious_release_file(fd));
+        errno = errno_sav;
+        return -1;
     }
 
+    // readlink doesn't add a null terminator, so we should
+    buf[bytes_written] = '\0';
+
     // now register the file using that path
     char* filesystem;
     char* mount_point;
     curious_get_filesystem(buf, &filesystem, &mount_point);
-    return curious_register_file(buf, fd, filesystem, mount_point);
+    int ret = curious_register_file(buf, fd, filesystem, mount_point);
+
+    errno = errno_sav;
+    return ret;
 }
 
 int curious_register_file(const char* path, int fd, char* filesystem, char* mount_point)
 {
-    curious_file_record_t* cur_record = (curious_file_record_t*) get_from_curious_dynamic_array(&file_registry, fd);
+    curious_file_record_t new_record;
+
+    new_record.path        = strdup(path);
+    new_record.filesystem  = filesystem;
+    new_record.mount_point = mount_point;
+    // If the file is a pipe, then identify the pipe as the 'mount point'
+    if (NULL == mount_point && 0 == strncmp(path, "pipe:", 5)) {
+        new_record.mount_point = new_record.path;
+    }
 
-    //printf("Registering %s on %s filesystem as fd %d\n", path, filesystem, fd);
+    //Ditto for a blank record to fill any extra space created
+    //by adding this file record
+    curious_file_record_t blank_record;
+    blank_record.path        = NULL;
+    blank_record.filesystem  = NULL;
+    blank_record.mount_point = NULL;
 
-    // If the fd hasn't been used before...
-    if (NULL == cur_record) {
-        // We need to set up a new record
-        curious_file_record_t new_record;
-
-        // ...and intialise its fields
-        new_record.path        = strdup(path);
-        new_record.filesystem  = filesystem;
-        new_record.mount_point = mount_point;
-        // If the file is a pipe, then identify the pipe as the 'mount point'
-        if (NULL == mount_point && 0 == strncmp(path, "pipe:", 5)) {
-            new_record.mount_point = new_record.path;
-        }
-
-        //Ditto for a blank record to fill any extra space created
-        //by adding this file record
-        curious_file_record_t blank_record;
-        blank_record.path        = NULL;
-        blank_record.filesystem  = NULL;
-        blank_record.mount_point = NULL;
+    char* old_path = NULL;
 
-        set_in_curious_dynamic_array(&file_registry, &new_record, &blank_record, fd);
+    pthread_mutex_lock(&file_registry_lock);
 
-        // ...otherwise...
+    curious_file_record_t* cur_record = (curious_file_record_t*) get_from_curious_dynamic_array(&file_registry, fd);
+
+    if (NULL == cur_record) {
+        // The fd hasn't been used before, we need to make space for it
+        set_in_curious_dynamic_array(&file_registry, &new_record, &blank_record, fd);
     } else {
-        // ...all we need to do is intialise the feilds,
-        // since we already have space for a record where we need it
-        cur_record->path        = strdup(path);
-        cur_record->filesystem  = filesystem;
-        cur_record->mount_point = mount_point;
-        // If the file is a pipe, then identify the pipe as the 'mount point'
-        if (NULL == mount_point && 0 == strncmp(path, "pipe:", 5)) {
-            cur_record->mount_point = cur_record->path;
-        }
+        old_path    = cur_record->path;
+        *cur_record = new_record;
     }
 
+    pthread_mutex_unlock(&file_registry_lock);
+
+    free(old_path);
+
     return 0;
 }
 
-int curious_deregister_file(int fd)
+char* curious_release_file(int fd)
 {
+    char* path = NULL;
+
+    pthread_mutex_lock(&file_registry_lock);
+
     curious_file_record_t* cur_record = (curious_file_record_t*) get_from_curious_dynamic_array(&file_registry, fd);
 
-    if (cur_record == NULL)
-        return -1;
-    //printf("deregistering file %s on %s filesystem as %d\n", cur_record->path, cur_record->filesystem, fd);
+    if (NULL != cur_record) {
+        path = cur_record->path;
 
-    free(cur_record->path);
-    cur_record->path       = NULL;
-    cur_record->filesystem = NULL;
+        cur_record->path        = NULL;
+        cur_record->filesystem  = NULL;
+        cur_record->mount_point = NULL;
+    }
 
-    return 0;
+    pthread_mutex_unlock(&file_registry_lock);
+
+    return path;
 }
 
-// This is mostly here so we can confile dirct access to the file registry to this file
-curious_file_record_t* get_curious_file_record(int fd)
+void curious_lookup_file(int fd, char** filesystem, char** mount_point)
 {
-    return (curious_file_record_t*) get_from_curious_dynamic_array(&file_registry, fd);
+    *filesystem  = NULL;
+    *mount_point = NULL;
+
+    pthread_mutex_lock(&file_registry_lock);
+
+    curious_file_record_t* cur_record = (curious_file_record_t*) get_from_curious_dynamic_array(&file_registry, fd);
+
+    if (NULL != cur_record) {
+        *filesystem  = cur_record->filesystem;
+        *mount_point = cur_record->mount_point;
+    }
+
+    pthread_mutex_unlock(&file_registry_lock);
 }
diff --git a/src/services/io/CurIOus/src/file_registry.h b/src/services/io/CurIOus/src/file_registry.h
index f72804e..d8b8c6e 100644
--- a/src/services/io/CurIOus/src/file_registry.h
+++ b/src/services/io/CurIOus/src/file_registry.h
@@ -22,8 +22,12 @@ void curious_finalize_file_registry();
 void destroy_curious_file_record(curious_file_record_t* record);
 // Should be called whenever a new file is opened,
 // so that we can store information on that file
-int                    curious_register_file_by_fd(int fd);
-int                    curious_register_file(const char* path, int fd, char* filesystem, char* mount_point);
-int                    curious_deregister_file(int fd);
-curious_file_record_t* get_curious_file_record(int fd);
+int  curious_register_file_by_fd(int fd);
+int  curious_register_file(const char* path, int fd, char* filesystem, char* mount_point);
+// Forget about the given file. Returns the path string of its record, which the
+// caller must free() when the file's filesystem and mount point strings are no
+// longer needed
+char* curious_release_file(int fd);
+// Get the filesystem and mount point of the given file (NULL if unknown)
+void curious_lookup_file(int fd, char** filesystem, char** mount_point);
 #endif
diff --git a/src/services/io/CurIOus/src/wrappers.c b/src/services/io/CurIOus/src/wrappers.c
index 4da9c47..bfde668 100644
--- a/src/services/io/CurIOus/src/wrappers.c
+++ b/src/services/io/CurIOus/src/wrappers.c
@@ -1,4 +1,6 @@
+#include <errno.h>
 #include <signal.h>
+#include <stdlib.h>
 #include <unistd.h>
 #include <stdarg.h>
 #include <string.h>
@@ -213,6 +215,17 @@ static __thread volatile sig_atomic_t wrapper_call_depth;
     wrapper_call_depth--;                           \
     return return_val;
 
+// Get the file descriptor of a stream without changing errno
+static int get_fd(FILE* stream)
+{
+    int errno_sav = errno;
+    int fd        = fileno(stream);
+
+    errno = errno_sav;
+
+    return fd;
+}
+
 ssize_t wrapped_read(int fd, void* buf, size_t count)
 {
     WRAPPER_ENTER(read);
@@ -222,16 +235,9 @@ ssize_t wrapped_read(int fd, void* buf, size_t count)
 
     // Only call callbacks the first time around
     if (1 == wrapper_call_depth && wrappers_enabled) {
-        char*                  filesystem;
-        char*                  mount_point;
-        curious_file_record_t* record = get_curious_file_record(fd);
-        if (NULL == record) {
-            filesystem  = NULL;
-            mount_point = NULL;
-        } else {
-            filesystem  = record->filesystem;
-            mount_point = record->mount_point;
-        }
+        char* filesystem;
+        char* mount_point;
+        curious_lookup_file(fd, &filesystem, &mount_point);
 
         curious_read_record_t io_args = {
             .bytes_read  = 0,
@@ -266,16 +272,9 @@ ssize_t wrapped_write(int fd, const void* buf, size_t count)
 
     // Only call callbacks the first time around
     if (1 == wrapper_call_depth && wrappers_enabled) {
-        char*                  filesystem;
-        char*                  mount_point;
-        curious_file_record_t* record = get_curious_file_record(fd);
-        if (NULL == record) {
-            filesystem  = NULL;
-            mount_point = NULL;
-        } else {
-            filesystem  = record->filesystem;
-            mount_point = record->mount_point;
-        }
+        char* filesystem;
+        char* mount_point;
+        curious_lookup_file(fd, &filesystem, &mount_point);
 
         curious_write_record_t io_args = {
             .bytes_written = 0,
@@ -342,16 +341,11 @@ int wrapped_close(int fd)
 
     // Only call callbacks the first time around
     if (1 == wrapper_call_depth && wrappers_enabled) {
-        char*                  filesystem;
-        char*                  mount_point;
-        curious_file_record_t* record = get_curious_file_record(fd);
-        if (NULL == record) {
-            filesystem  = NULL;
-            mount_point = NULL;
-        } else {
-            filesystem  = record->filesystem;
-            mount_point = record->mount_point;
-        }
+        char* filesystem;
+        char* mount_point;
+        curious_lookup_file(fd, &filesystem, &mount_point);
+        // Forget the file before its descriptor can be reused
+        char* file_path = curious_release_file(fd);
 
         curious_metadata_record_t io_args = {
             .call_count  = 0,
@@ -368,6 +362,8 @@ int wrapped_close(int fd)
         //...for the pot callbacks to use
         curious_call_callbacks(CURIOUS_METADATA_CALLBACK | CURIOUS_POST_CALLBACK, &io_args);
 
+        free(file_path);
+
         WRAPPER_RETURN(return_val, close);
 
         // and just call the original function every other time
@@ -583,16 +579,9 @@ int wrapped_fstat(int fd, struct stat* buf)
 
     // Only call callbacks the first time around
     if (1 == wrapper_call_depth && wrappers_enabled) {
-        char*                  filesystem;
-        char*                  mount_point;
-        curious_file_record_t* record = get_curious_file_record(fd);
-        if (NULL == record) {
-            filesystem  = NULL;
-            mount_point = NULL;
-        } else {
-            filesystem  = record->filesystem;
-            mount_point = record->mount_point;
-        }
+        char* filesystem;
+        char* mount_point;
+        curious_lookup_file(fd, &filesystem, &mount_point);
 
         curious_metadata_record_t io_args = {
             .call_count  = 0,
@@ -626,16 +615,9 @@ int wrapped_fxstat(int vers, int fd, struct stat* buf)
 
     // Only call callbacks the first time around
     if (1 == wrapper_call_depth && wrappers_enabled) {
-        char*                  filesystem;
-        char*                  mount_point;
-        curious_file_record_t* record = get_curious_file_record(fd);
-        if (NULL == record) {
-            filesystem  = NULL;
-            mount_point = NULL;
-        } else {
-            filesystem  = record->filesystem;
-            mount_point = record->mount_point;
-        }
+        char* filesystem;
+        char* mount_point;
+        curious_lookup_file(fd, &filesystem, &mount_point);
 
         curious_metadata_record_t io_args = {
             .call_count  = 0,
@@ -669,16 +651,9 @@ int wrapped_fxstat64(int vers, int fd, struct stat* buf)
 
     // Only call callbacks the first time around
     if (1 == wrapper_call_depth && wrappers_enabled) {
-        char*                  filesystem;
-        char*                  mount_point;
-        curious_file_record_t* record = get_curious_file_record(fd);
-        if (NULL == record) {
-            filesystem  = NULL;
-            mount_point = NULL;
-        } else {
-            filesystem  = record->filesystem;
-            mount_point = record->mount_point;
-        }
+        char* filesystem;
+        char* mount_point;
+        curious_lookup_file(fd, &filesystem, &mount_point);
 
         curious_metadata_record_t io_args = {
             .call_count  = 0,
@@ -725,7 +700,7 @@ FILE* wrapped_fopen(const char* path, const char* mode)
         FILE* file = orig_fopen(path, mode);
 
         if (NULL != file) {
-            curious_register_file_by_fd(fileno(file));
+            curious_register_file_by_fd(get_fd(file));
         }
 
         curious_call_callbacks(CURIOUS_METADATA_CALLBACK | CURIOUS_POST_CALLBACK, &io_args);
@@ -744,16 +719,9 @@ FILE* wrapped_fdopen(int fd, const char* mode)
 
     // Only call callbacks the first time around
     if (1 == wrapper_call_depth && wrappers_enabled) {
-        char*                  filesystem;
-        char*                  mount_point;
-        curious_file_record_t* record = get_curious_file_record(fd);
-        if (NULL == record) {
-            filesystem  = NULL;
-            mount_point = NULL;
-        } else {
-            filesystem  = record->filesystem;
-            mount_point = record->mount_point;
-        }
+        char* filesystem;
+        char* mount_point;
+        curious_lookup_file(fd, &filesystem, &mount_point);
 
         curious_metadata_record_t io_args = {
             .call_count  = 0,
@@ -801,7 +769,7 @@ FILE* wrapped_freopen(const char* path, const char* mode, FILE* stream)
         FILE* file = orig_freopen(path, mode, stream);
 
         if (NULL != file) {
-            curious_register_file_by_fd(fileno(file));
+            curious_register_file_by_fd(get_fd(file));
         }
 
         curious_call_callbacks(CURIOUS_METADATA_CALLBACK | CURIOUS_POST_CALLBACK, &io_args);
@@ -820,18 +788,12 @@ int wrapped_fclose(FILE* fp)
 
     // Only call callbacks the first time around
     if (1 == wrapper_call_depth && wrappers_enabled) {
-        char*                  filesystem;
-        char*                  mount_point;
-        curious_file_record_t* record = get_curious_file_record(fileno(fp));
-        if (NULL == record) {
-            filesystem  = NULL;
-            mount_point = NULL;
-        } else {
-            filesystem  = record->filesystem;
-            mount_point = record->mount_point;
-        }
+        char* filesystem;
+        char* mount_point;
+        curious_lookup_file(get_fd(fp), &filesystem, &mount_point);
 
-        curious_deregister_file(fileno(fp));
+        // Forget the file before its descriptor can be reused
+        char* file_path = curious_release_file(get_fd(fp));
 
         curious_metadata_record_t io_args = {
             .call_count  = 0,
@@ -848,6 +810,8 @@ int wrapped_fclose(FILE* fp)
         //...for the pot callbacks to use
         curious_call_callbacks(CURIOUS_METADATA_CALLBACK | CURIOUS_POST_CALLBACK, &io_args);
 
+        free(file_path);
+
         WRAPPER_RETURN(return_val, fclose);
 
         // and just call the original function every other time
@@ -869,16 +833,9 @@ int wrapped_printf(const char* format, ...)
 
     // Only call callbacks the first time around
     if (1 == wrapper_call_depth && wrappers_enabled) {
-        char*                  filesystem;
-        char*                  mount_point;
-        curious_file_record_t* record = get_curious_file_record(STDOUT_FILENO);
-        if (NULL == record) {
-            filesystem  = NULL;
-            mount_point = NULL;
-        } else {
-            filesystem  = record->filesystem;
-            mount_point = record->mount_point;
-        }
+        char* filesystem;
+        char* mount_point;
+        curious_lookup_file(STDOUT_FILENO, &filesystem, &mount_point);
 
         curious_write_record_t io_args = {
             .bytes_written = 0,
@@ -920,16 +877,9 @@ int wrapped_fprintf(FILE* stream, const char* format, ...)
 
     // Only call callbacks the first time around
     if (1 == wrapper_call_depth && wrappers_enabled) {
-        char*                  filesystem;
-        char*                  mount_point;
-        curious_file_record_t* record = get_curious_file_record(fileno(stream));
-        if (NULL == record) {
-            filesystem  = NULL;
-            mount_point = NULL;
-        } else {
-            filesystem  = record->filesystem;
-            mount_point = record->mount_point;
-        }
+        char* filesystem;
+        char* mount_point;
+        curious_lookup_file(get_fd(stream), &filesystem, &mount_point);
 
         curious_write_record_t io_args = {
             .bytes_written = 0,
@@ -967,16 +917,9 @@ int wrapped_vprintf(const char* format, va_list ap)
 
     // Only call callbacks the first time around
     if (1 == wrapper_call_depth && wrappers_enabled) {
-        char*                  filesystem;
-        char*                  mount_point;
-        curious_file_record_t* record = get_curious_file_record(STDOUT_FILENO);
-        if (NULL == record) {
-            filesystem  = NULL;
-            mount_point = NULL;
-        } else {
-            filesystem  = record->filesystem;
-            mount_point = record->mount_point;
-        }
+        char* filesystem;
+        char* mount_point;
+        curious_lookup_file(STDOUT_FILENO, &filesystem, &mount_point);
 
         curious_write_record_t io_args = {
             .bytes_written = 0,
@@ -1014,16 +957,9 @@ int wrapped_vfprintf(FILE* stream, const char* format, va_list ap)
 
     // Only call callbacks the first time around
     if (1 == wrapper_call_depth && wrappers_enabled) {
-        char*                  filesystem;
-        char*                  mount_point;
-        curious_file_record_t* record = get_curious_file_record(fileno(stream));
-        if (NULL == record) {
-            filesystem  = NULL;
-            mount_point = NULL;
-        } else {
-            filesystem  = record->filesystem;
-            mount_point = record->mount_point;
-        }
+        char* filesystem;
+        char* mount_point;
+        curious_lookup_file(get_fd(stream), &filesystem, &mount_point);
 
         curious_write_record_t io_args = {
             .bytes_written = 0,
@@ -1228,16 +1164,9 @@ int wrapped_fgetc(FILE* stream)
 
     // Only call callbacks the first time around
     if (1 == wrapper_call_depth && wrappers_enabled) {
-        char*                  filesystem;
-        char*                  mount_point;
-        curious_file_record_t* record = get_curious_file_record(fileno(stream));
-        if (NULL == record) {
-            filesystem  = NULL;
-            mount_point = NULL;
-        } else {
-            filesystem  = record->filesystem;
-            mount_point = record->mount_point;
-        }
+        char* filesystem;
+        char* mount_point;
+        curious_lookup_file(get_fd(stream), &filesystem, &mount_point);
 
         curious_read_record_t io_args = {
             .bytes_read  = 0,
@@ -1275,16 +1204,9 @@ char* wrapped_fgets(char* s, int size, FILE* stream)
 
     // Only call callbacks the first time around
     if (1 == wrapper_call_depth && wrappers_enabled) {
-        char*                  filesystem;
-        char*                  mount_point;
-        curious_file_record_t* record = get_curious_file_record(fileno(stream));
-        if (NULL == record) {
-            filesystem  = NULL;
-            mount_point = NULL;
-        } else {
-            filesystem  = record->filesystem;
-            mount_point = record->mount_point;
-        }
+        char* filesystem;
+        char* mount_point;
+        curious_lookup_file(get_fd(stream), &filesystem, &mount_point);
 
         curious_read_record_t io_args = {
             .bytes_read  = 0,
@@ -1322,16 +1244,9 @@ int wrapped_getchar(void)
 
     // Only call callbacks the first time around
     if (1 == wrapper_call_depth && wrappers_enabled) {
-        char*                  filesystem;
-        char*                  mount_point;
-        curious_file_record_t* record = get_curious_file_record(STDIN_FILENO);
-        if (NULL == record) {
-            filesystem  = NULL;
-            mount_point = NULL;
-        } else {
-            filesystem  = record->filesystem;
-            mount_point = record->mount_point;
-        }
+        char* filesystem;
+        char* mount_point;
+        curious_lookup_file(STDIN_FILENO, &filesystem, &mount_point);
 
         curious_read_record_t io_args = {
             .bytes_read  = 0,
@@ -1417,16 +1332,9 @@ size_t wrapped_fread(void* ptr, size_t size, size_t nmemb, FILE* stream)
 
     // Only call callbacks the first time around
     if (1 == wrapper_call_depth && wrappers_enabled) {
-        char*                  filesystem;
-        char*                  mount_point;
-        curious_file_record_t* record = get_curious_file_record(fileno(stream));
-        if (NULL == record) {
-            filesystem  = NULL;
-            mount_point = NULL;
-        } else {
-            filesystem  = record->filesystem;
-            mount_point = record->mount_point;
-        }
+        char* filesystem;
+        char* mount_point;
+        curious_lookup_file(get_fd(stream), &filesystem, &mount_point);
 
         curious_read_record_t io_args = {
             .bytes_read  = 0,
@@ -1464,16 +1372,9 @@ size_t wrapped_fwrite(void* ptr, size_t size, size_t nmemb, FILE* stream)
 
     // Only call callbacks the first time around
     if (1 == wrapper_call_depth && wrappers_enabled) {
-        char*                  filesystem;
-        char*                  mount_point;
-        curious_file_record_t* record = get_curious_file_record(fileno(stream));
-        if (NULL == record) {
-            filesystem  = NULL;
-            mount_point = NULL;
-        } else {
-            filesystem  = record->filesystem;
-            mount_point = record->mount_point;
-        }
+        char* filesystem;
+        char* mount_point;
+        curious_lookup_file(get_fd(stream), &filesystem, &mount_point);
 
         curious_write_record_t io_args = {
             .bytes_written = 0,
-- 
2.43.0


From 63273b96bbb319a633728c3cab87194a47fc381a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:41 +0000
Subject: [PATCH 068/110] fix: remove all callbacks of a finished I/O wrapper
 instance and re-enable wrappers for new ones

---
 src/services/io/CurIOus/src/callbacks.c     | 2 ++
 src/services/io/CurIOus/src/curious.c       | 4 +++-
 src/services/io/CurIOus/src/dynamic_array.c | 8 ++++++--
 src/services/io/CurIOus/src/wrappers.c      | 3 +++
 src/services/io/CurIOus/src/wrappers.h      | 1 +
 5 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/services/io/CurIOus/src/callbacks.c b/src/services/io/CurIOus/src/callbacks.c
index 12ec235..d9e7929 100644
--- a/src/services/io/CurIOus/src/callbacks.c
+++ b/src/services/io/CurIOus/src/callbacks.c
@@ -63,6 +63,8 @@ void curious_deregister_callbacks(curious_t curious_inst)
             } else if (block_size) {
                 remove_from_curious_dynamic_array(callbacks, j - block_size, block_size, NULL);
                 // ...and then start looking for a new block
+                // (the remaining elements have moved to where the block was)
+                j -= block_size;
                 block_size = 0;
             }
         }
diff --git a/src/services/io/CurIOus/src/curious.c b/src/services/io/CurIOus/src/curious.c
index e59080f..14ef742 100644
--- a/src/services/io/CurIOus/src/curious.c
+++ b/src/services/io/CurIOus/src/curious.c
@@ -28,6 +28,8 @@ int curious_init(curious_apis_t apis)
         wrapped_apis |= missing_apis;
     }
 
+    curious_enable_wrappers();
+
     return ++next_inst;
 }
 
@@ -35,8 +37,8 @@ void curious_finalize(curious_t curious_inst)
 {
     //Turn everything off if we don't have any active instances...
     if (0 == --active_insts) {
-        curious_finalize_callback_registry();
         curious_disable_wrappers();
+        curious_finalize_callback_registry();
         curious_finalize_file_registry();
 
         // ...and just remove the callbacks from this instance of CURIOUS otherwise
diff --git a/src/services/io/CurIOus/src/dynamic_array.c b/src/services/io/CurIOus/src/dynamic_array.c
index 23b0860..ab6e677 100644
--- a/src/services/io/CurIOus/src/dynamic_array.c
+++ b/src/services/io/CurIOus/src/dynamic_array.c
@@ -26,6 +26,10 @@ void destroy_curious_dynamic_array(curious_dynamic_array_t* self, free_f destroy
 
     //...and only afterwards free the array itself
     free(self->array);
+
+    self->array   = NULL;
+    self->last_el = -1;
+    self->len     = 0;
 }
 
 void append_to_curious_dynamic_array(curious_dynamic_array_t* self, void* new_el)
@@ -54,7 +58,7 @@ int remove_from_curious_dynamic_array(curious_dynamic_array_t* self, int index,
     //TODO: make these actual errors
     if (index < 0 || index > self->last_el) {
         return -1;
-    } else if (num_els < 0 || num_els > self->last_el - index) {
+    } else if (num_els < 0 || num_els > self->last_el + 1 - index) {
         return -2;
     } else if (0 == num_els) {
         //not an error, we just don't need to remove anything
@@ -69,7 +73,7 @@ int remove_from_curious_dynamic_array(curious_dynamic_array_t* self, int index,
         }
     }
 
-    int tail_count = self->last_el - num_els - index;
+    int tail_count = self->last_el + 1 - num_els - index;
 
     // Move the remaining entries at the end of the array (if any)
     // forward to fill the vacated space
diff --git a/src/services/io/CurIOus/src/wrappers.c b/src/services/io/CurIOus/src/wrappers.c
index bfde668..ba534a3 100644
--- a/src/services/io/CurIOus/src/wrappers.c
+++ b/src/services/io/CurIOus/src/wrappers.c
@@ -188,7 +188,10 @@ void curious_apply_wrappers(curious_apis_t apis)
     if (apis & CURIOUS_CSTDIO) {
         gotcha_wrap(&bindings[CURIOUS_CSTDIO_START], CURIOUS_FUNCTION_COUNT - CURIOUS_CSTDIO_START, "curious");
     }
+}
 
+void curious_enable_wrappers(void)
+{
     wrappers_enabled = 1;
 }
 
diff --git a/src/services/io/CurIOus/src/wrappers.h b/src/services/io/CurIOus/src/wrappers.h
index b568893..5c3ad27 100644
--- a/src/services/io/CurIOus/src/wrappers.h
+++ b/src/services/io/CurIOus/src/wrappers.h
@@ -23,6 +23,7 @@ typedef struct io_function_data {
 } io_function_data_t;
 
 void curious_apply_wrappers(curious_apis_t apis);
+void curious_enable_wrappers(void);
 void curious_disable_wrappers(void);
 
 // See io_arhs.h under include/curious for structs to serve as io_args
-- 
2.43.0


From c9cb396f1620899cac2bd7937d765707684ef74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:36 +0000
Subject: [PATCH 069/110] fix: preserve errno and results of wrapped I/O calls
 and don't count failed transfers

---
 src/services/io/CurIOus/src/callbacks.c |  6 +++++
 src/services/io/CurIOus/src/wrappers.c  | 32 ++++++++++++++++++-------
 src/services/io/IOService.cpp           | 10 ++++----
 3 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/src/services/io/CurIOus/src/callbacks.c b/src/services/io/CurIOus/src/callbacks.c
index d9e7929..9c4e203 100644
--- a/src/services/io/CurIOus/src/callbacks.c
+++ b/src/services/io/CurIOus/src/callbacks.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <stdlib.h>
 
 #include "wrappers.h"
@@ -81,6 +82,9 @@ void curious_call_callbacks(curious_callback_type_t type, void* io_args)
     //lookup the list of registred functions of the specified type...
     curious_dynamic_array_t callbacks = callback_registry[type];
 
+    //the application must see the errno value of its I/O function, not ours
+    int errno_sav = errno;
+
     //...and run every one
     for (int i = 0; i <= callbacks.last_el; ++i) {
         curious_callback_data_t* data = (curious_callback_data_t*) (get_from_curious_dynamic_array(&callbacks, i));
@@ -89,4 +93,6 @@ void curious_call_callbacks(curious_callback_type_t type, void* io_args)
         //io_args was just passed to the IO function in the main code
         data->callback(type, data->usr_args, io_args);
     }
+
+    errno = errno_sav;
 }
diff --git a/src/services/io/CurIOus/src/wrappers.c b/src/services/io/CurIOus/src/wrappers.c
index ba534a3..fb29421 100644
--- a/src/services/io/CurIOus/src/wrappers.c
+++ b/src/services/io/CurIOus/src/wrappers.c
@@ -252,13 +252,16 @@ ssize_t wrapped_read(int fd, void* buf, size_t count)
         curious_call_callbacks(CURIOUS_READ_CALLBACK, &io_args);
 
         // Call the original, saving the result...
-        io_args.bytes_read = orig_read(fd, buf, count);
+        ssize_t return_val = orig_read(fd, buf, count);
         io_args.call_count = 1;
+        if (return_val > 0) {
+            io_args.bytes_read = return_val;
+        }
 
         //...for the pot callbacks to use
         curious_call_callbacks(CURIOUS_READ_CALLBACK | CURIOUS_POST_CALLBACK, &io_args);
 
-        WRAPPER_RETURN(io_args.bytes_read, read);
+        WRAPPER_RETURN(return_val, read);
 
         // and just call the original function every other time
     } else {
@@ -289,13 +292,16 @@ ssize_t wrapped_write(int fd, const void* buf, size_t count)
         curious_call_callbacks(CURIOUS_WRITE_CALLBACK, &io_args);
 
         // Call the original, saving the result...
-        io_args.bytes_written = orig_write(fd, buf, count);
-        io_args.call_count    = 1;
+        ssize_t return_val = orig_write(fd, buf, count);
+        io_args.call_count = 1;
+        if (return_val > 0) {
+            io_args.bytes_written = return_val;
+        }
 
         //...for the pot callbacks to use
         curious_call_callbacks(CURIOUS_WRITE_CALLBACK | CURIOUS_POST_CALLBACK, &io_args);
 
-        WRAPPER_RETURN(io_args.bytes_written, write);
+        WRAPPER_RETURN(return_val, write);
 
         // and just call the original function every other time
     } else {
@@ -542,10 +548,10 @@ int wrapped_lxstat(int vers, const char* path, struct stat* buf)
 
 int wrapped_lxstat64(int vers, const char* path, struct stat* buf)
 {
-    WRAPPER_ENTER(xstat);
+    WRAPPER_ENTER(lxstat64);
 
     // Get the handle for the original function
-    xstat_f orig_lxstat64 = (xstat_f) gotcha_get_wrappee(io_fns[CURIOUS_XSTAT_ID].handle);
+    xstat_f orig_lxstat64 = (xstat_f) gotcha_get_wrappee(io_fns[CURIOUS_LXSTAT64_ID].handle);
 
     // Only call callbacks the first time around
     if (1 == wrapper_call_depth && wrappers_enabled) {
@@ -851,6 +857,7 @@ int wrapped_printf(const char* format, ...)
 
         // Call the original, saving the result...
         int return_val     = orig_vprintf(format, args);
+        va_end(args);
         io_args.call_count = 1;
         if (return_val > 0) {
             io_args.bytes_written = return_val;
@@ -863,7 +870,10 @@ int wrapped_printf(const char* format, ...)
 
         // and just call the original function every other time
     } else {
-        WRAPPER_RETURN(orig_vprintf(format, args), printf);
+        int return_val = orig_vprintf(format, args);
+        va_end(args);
+
+        WRAPPER_RETURN(return_val, printf);
     }
 }
 
@@ -895,6 +905,7 @@ int wrapped_fprintf(FILE* stream, const char* format, ...)
 
         // Call the original, saving the result...
         int return_val     = orig_vfprintf(stream, format, args);
+        va_end(args);
         io_args.call_count = 1;
         if (return_val > 0) {
             io_args.bytes_written = return_val;
@@ -907,7 +918,10 @@ int wrapped_fprintf(FILE* stream, const char* format, ...)
 
         // and just call the original function every other time
     } else {
-        WRAPPER_RETURN(orig_vfprintf(stream, format, args), fprintf);
+        int return_val = orig_vfprintf(stream, format, args);
+        va_end(args);
+
+        WRAPPER_RETURN(return_val, fprintf);
     }
 }
 
diff --git a/src/services/io/IOService.cpp b/src/services/io/IOService.cpp
index 44f6c21..f18e8cb 100644
--- a/src/services/io/IOService.cpp
+++ b/src/services/io/IOService.cpp
@@ -45,9 +45,9 @@ Attribute io_bytes_written_attr;
 
 // A lookup table for the Variant corresponding to each callback category
 Variant categories[] = {
-    Variant(CALI_TYPE_STRING, "read", 5),
-    Variant(CALI_TYPE_STRING, "write", 6),
-    Variant(CALI_TYPE_STRING, "metadata", 9),
+    Variant(CALI_TYPE_STRING, "read", 4),
+    Variant(CALI_TYPE_STRING, "write", 5),
+    Variant(CALI_TYPE_STRING, "metadata", 8),
 };
 
 // We need to record different info for different I/O regions/records:
@@ -82,9 +82,9 @@ Variant make_variant(char* str)
     Variant var;
 
     if (nullptr == str) {
-        var = Variant(CALI_TYPE_STRING, "unknown", 8);
+        var = Variant(CALI_TYPE_STRING, "unknown", 7);
     } else {
-        var = Variant(CALI_TYPE_STRING, str, strlen(str) + 1);
+        var = Variant(CALI_TYPE_STRING, str, strlen(str));
     }
 
     return var;
-- 
2.43.0


From 332e122aab8b7b5b29780724715035cae9ec2912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:37 +0000
Subject: [PATCH 070/110] fix: end I/O regions exactly if they were begun

---
 src/services/io/IOService.cpp | 52 ++++++++++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/src/services/io/IOService.cpp b/src/services/io/IOService.cpp
index f18e8cb..dcf43fd 100644
--- a/src/services/io/IOService.cpp
+++ b/src/services/io/IOService.cpp
@@ -90,6 +90,36 @@ Variant make_variant(char* str)
     return var;
 }
 
+// Channels for which the current thread's I/O call has an open I/O region.
+// A channel may be activated or deactivated while the I/O call is in progress,
+// but the region must be closed exactly if it was opened.
+
+constexpr int MAX_OPEN_REGIONS = 16;
+
+thread_local const user_data_t* open_regions[MAX_OPEN_REGIONS];
+thread_local int                num_open_regions = 0;
+
+bool remember_open_region(const user_data_t* data)
+{
+    if (num_open_regions >= MAX_OPEN_REGIONS)
+        return false;
+
+    open_regions[num_open_regions++] = data;
+
+    return true;
+}
+
+bool forget_open_region(const user_data_t* data)
+{
+    for (int i = 0; i < num_open_regions; ++i)
+        if (open_regions[i] == data) {
+            open_regions[i] = open_regions[--num_open_regions];
+            return true;
+        }
+
+    return false;
+}
+
 template <typename Record>
 void handle_io(curious_callback_type_t type, void* usr_data, Record* record)
 {
@@ -100,29 +130,31 @@ void handle_io(curious_callback_type_t type, void* usr_data, Record* record)
     Caliper c    = Caliper::sigsafe_instance();
     auto    data = static_cast<user_data_t*>(usr_data);
 
-    // If we got a Caliper instance successfully...
-    if (c && data->channel.is_active()) {
+    if (type & CURIOUS_POST_CALLBACK) {
         // ...mark the end...
-        if (type & CURIOUS_POST_CALLBACK) {
-            handle_unique_record_data(c, data->channel, record);
+        if (c && forget_open_region(data)) {
+            if (data->channel.is_active())
+                handle_unique_record_data(c, data->channel, record);
 
             c.end(io_region_attr);
             c.end(io_filesystem_attr);
             c.end(io_mount_point_attr);
-
-            // ...or begining of the I/O region, as appropriate
         } else {
+            ++num_failed_io_callbacks;
+        }
+    } else {
+        // ...or begining of the I/O region, as appropriate
+        if (c && data->channel.is_active() && remember_open_region(data)) {
             Variant filesystem_var  = make_variant(record->filesystem);
             Variant mount_point_var = make_variant(record->mount_point);
 
             c.begin(io_mount_point_attr, mount_point_var);
             c.begin(io_filesystem_attr, filesystem_var);
             c.begin(io_region_attr, categories[GET_CATEGORY(type)]);
+        } else {
+            // not our failure (channel inactive, or already inside Caliper)
+            ++num_failed_io_callbacks;
         }
-
-        // ...otherwise not our failure (probably already inside Caliper)
-    } else {
-        ++num_failed_io_callbacks;
     }
 }
 
-- 
2.43.0


From 2ea3d34c9a952134028bd83e75a2b083e77ed0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:22 +0000
Subject: [PATCH 071/110] fix: handle invalid attributes and attribute types
 when the context tree is exhausted

---
 src/caliper/MetadataTree.h          | 2 +-
 src/services/event/EventTrigger.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/caliper/MetadataTree.h b/src/caliper/MetadataTree.h
index 32f0e7e..0fd093e 100644
--- a/src/caliper/MetadataTree.h
+++ b/src/caliper/MetadataTree.h
@@ -41,7 +41,7 @@ class MetadataTree
         size_t num_blocks;
         size_t nodes_per_block;
 
-        Node* type_nodes[CALI_MAXTYPE + 1];
+        Node* type_nodes[CALI_MAXTYPE + 1] = {};
 
         //   Shared copy of the initial thread's mempool.
         // Used to merge in the pools of deleted threads.
diff --git a/src/services/event/EventTrigger.cpp b/src/services/event/EventTrigger.cpp
index dbc6836..28809c6 100644
--- a/src/services/event/EventTrigger.cpp
+++ b/src/services/event/EventTrigger.cpp
@@ -112,7 +112,7 @@ class EventTrigger
 
     void check_attribute(Caliper* c, const Attribute& attr)
     {
-        if (attr.id() < 12 /* skip fixed metadata attributes */ || attr.skip_events())
+        if (!attr || attr.id() < 12 /* skip fixed metadata attributes */ || attr.skip_events())
             return;
 
         auto it = std::find(trigger_attr_names.begin(), trigger_attr_names.end(), attr.name());
-- 
2.43.0


From a0a90c24ef2916649906212611dcd58c6585903b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:11 +0000
Subject: [PATCH 072/110] fix: preserve errno in allocation wrappers

---
 src/services/sysalloc/SysAllocService.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/services/sysalloc/SysAllocService.cpp b/src/services/sysalloc/SysAllocService.cpp
index ff01544..ffd226a 100644
--- a/src/services/sysalloc/SysAllocService.cpp
+++ b/src/services/sysalloc/SysAllocService.cpp
@@ -94,6 +94,8 @@ void* cali_realloc_wrapper(void* ptr, size_t size)
     decltype(&std::realloc) orig_realloc =
         reinterpret_cast<decltype(&std::realloc)>(gotcha_get_wrappee(orig_realloc_handle));
 
+    int saved_errno = errno;
+
     for (ChannelList* p = sysalloc_channels; p; p = p->next) {
         Caliper c = Caliper::sigsafe_instance();
 
@@ -101,9 +103,11 @@ void* cali_realloc_wrapper(void* ptr, size_t size)
             c.memory_region_end(p->channel.body(), ptr);
     }
 
+    errno = saved_errno;
+
     void* ret = (*orig_realloc)(ptr, size);
 
-    int saved_errno = errno;
+    saved_errno = errno;
 
     for (ChannelList* p = sysalloc_channels; p; p = p->next) {
         Caliper c = Caliper::sigsafe_instance();
@@ -121,6 +125,8 @@ void cali_free_wrapper(void* ptr)
 {
     decltype(&std::free) orig_free = reinterpret_cast<decltype(&std::free)>(gotcha_get_wrappee(orig_free_handle));
 
+    int saved_errno = errno;
+
     for (ChannelList* p = sysalloc_channels; p; p = p->next) {
         Caliper c = Caliper::sigsafe_instance();
 
@@ -128,6 +134,8 @@ void cali_free_wrapper(void* ptr)
             c.memory_region_end(p->channel.body(), ptr);
     }
 
+    errno = saved_errno;
+
     (*orig_free)(ptr);
 }
 
-- 
2.43.0


From 593567f4cfbb0441b6f475640dd8b1d3ed9bfda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:11 +0000
Subject: [PATCH 073/110] fix: don't leak the arguments of wrapped threads

---
 src/services/pthread/PthreadService.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/services/pthread/PthreadService.cpp b/src/services/pthread/PthreadService.cpp
index bda6b1d..04b4912 100644
--- a/src/services/pthread/PthreadService.cpp
+++ b/src/services/pthread/PthreadService.cpp
@@ -10,12 +10,14 @@
 
 #include "caliper/common/Log.h"
 
+#include <errno.h>
 #include <pthread.h>
 
 #include <gotcha/gotcha.h>
 
 #include <algorithm>
 #include <cstdlib>
+#include <new>
 #include <vector>
 
 using namespace cali;
@@ -47,11 +49,13 @@ void* thread_wrapper(void* arg)
         c.set(id_attr, Variant(cali_make_variant_from_uint(id)));
     }
 
+    // The thread may never return from its start function, so delete the
+    // wrapper arguments before calling it
     wrapper_args* wrap = static_cast<wrapper_args*>(arg);
-    void*         ret  = (*(wrap->fn))(wrap->arg);
+    wrapper_args  args = *wrap;
 
     delete wrap;
-    return ret;
+    return (*(args.fn))(args.arg);
 }
 
 // Wrapper for pthread_create()
@@ -60,7 +64,17 @@ int cali_pthread_create_wrapper(pthread_t* thread, const pthread_attr_t* attr, v
     decltype(&pthread_create) orig_pthread_create =
         reinterpret_cast<decltype(&pthread_create)>(gotcha_get_wrappee(orig_pthread_create_handle));
 
-    return (*orig_pthread_create)(thread, attr, thread_wrapper, new wrapper_args({ fn, arg }));
+    wrapper_args* wrap = new (std::nothrow) wrapper_args({ fn, arg });
+
+    if (!wrap)
+        return EAGAIN;
+
+    int ret = (*orig_pthread_create)(thread, attr, thread_wrapper, wrap);
+
+    if (ret != 0)
+        delete wrap;
+
+    return ret;
 }
 
 void post_init_cb(Caliper* c, Channel* channel)
-- 
2.43.0


From 17f2ab8d8643d231201a51a224167ff3e5cc6424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:16 +0000
Subject: [PATCH 074/110] fix: forget the file of a stream that is reopened

---
 src/services/io/CurIOus/src/wrappers.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/services/io/CurIOus/src/wrappers.c b/src/services/io/CurIOus/src/wrappers.c
index fb29421..e25d84b 100644
--- a/src/services/io/CurIOus/src/wrappers.c
+++ b/src/services/io/CurIOus/src/wrappers.c
@@ -774,6 +774,9 @@ FILE* wrapped_freopen(const char* path, const char* mode, FILE* stream)
         curious_get_filesystem(path, &io_args.filesystem, &io_args.mount_point);
         curious_call_callbacks(CURIOUS_METADATA_CALLBACK, &io_args);
 
+        // The stream's current file is closed, even if opening the new one fails
+        free(curious_release_file(get_fd(stream)));
+
         // Call the original, saving the result...
         FILE* file = orig_freopen(path, mode, stream);
 
-- 
2.43.0


From 18447f4c083e1c9d4e9ba3cc917b14390c73291e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:45 +0000
Subject: [PATCH 075/110] fix: take the last definition of a variable when
 profiles are given more than once

---
 src/common/RuntimeConfig.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/common/RuntimeConfig.cpp b/src/common/RuntimeConfig.cpp
index 17cef69..d6098dc 100644
--- a/src/common/RuntimeConfig.cpp
+++ b/src/common/RuntimeConfig.cpp
@@ -155,6 +155,13 @@ struct RuntimeConfig::RuntimeConfigImpl {
 
     // --- helpers
 
+    // Add settings to a profile. The last definition of a variable is taken.
+    void add_to_config_profile(const std::string& name, const ::config_profile_t& profile)
+    {
+        for (const auto& p : profile)
+            m_config_profiles[name][p.first] = p.second;
+    }
+
     void read_config_profiles(std::istream& in)
     {
         //
@@ -177,9 +184,7 @@ struct RuntimeConfig::RuntimeConfigImpl {
                 std::string::size_type e = line.find_first_of(']');
 
                 if (b != std::string::npos && e != std::string::npos && b + 1 < e) {
-                    if (current_profile.size() > 0)
-                        m_config_profiles[current_profile_name].insert(current_profile.begin(), current_profile.end());
-
+                    add_to_config_profile(current_profile_name, current_profile);
                     current_profile.clear();
                     current_profile_name = line.substr(b + 1, e - b - 1);
                 } else {
@@ -195,8 +200,7 @@ struct RuntimeConfig::RuntimeConfigImpl {
             }
         }
 
-        if (current_profile.size() > 0)
-            m_config_profiles[current_profile_name] = current_profile;
+        add_to_config_profile(current_profile_name, current_profile);
     }
 
     void read_config_files(const std::vector<std::string>& filenames)
-- 
2.43.0


From ba60975f857efb0571557738a2d471662fdc3f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:33 +0000
Subject: [PATCH 076/110] fix: reject numbers with trailing characters in
 string conversions

---
 src/common/StringConverter.cpp | 38 +++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/common/StringConverter.cpp b/src/common/StringConverter.cpp
index d4a3598..9a7409b 100644
--- a/src/common/StringConverter.cpp
+++ b/src/common/StringConverter.cpp
@@ -12,6 +12,19 @@
 #include <cctype>
 #include <sstream>
 
+namespace
+{
+
+// Conversions need to use the entire string, except for trailing whitespace
+bool is_converted(const std::string& str, std::size_t pos)
+{
+    while (pos < str.size() && std::isspace(static_cast<unsigned char>(str[pos])))
+        ++pos;
+    return pos >= str.size();
+}
+
+} // namespace
+
 cali_id_t cali::StringConverter::to_id() const
 {
     bool      ok = false;
@@ -45,10 +58,11 @@ bool cali::StringConverter::to_bool(bool* okptr) const
 
     if (!ok) {
         try {
-            unsigned long i = std::stoul(m_str);
+            std::size_t   pos = 0;
+            unsigned long i   = std::stoul(m_str, &pos);
 
+            ok  = ::is_converted(m_str, pos);
             res = (i != 0);
-            ok  = true;
         } catch (...) {
             ok = false;
         }
@@ -66,8 +80,9 @@ int cali::StringConverter::to_int(bool* okptr) const
     int  res = 0;
 
     try {
-        res = std::stoi(m_str);
-        ok  = true;
+        std::size_t pos = 0;
+        res = std::stoi(m_str, &pos);
+        ok  = ::is_converted(m_str, pos);
     } catch (...) {
         ok = false;
     }
@@ -84,8 +99,9 @@ int64_t cali::StringConverter::to_int64(bool* okptr) const
     int64_t res = 0;
 
     try {
-        res = std::stoll(m_str);
-        ok  = true;
+        std::size_t pos = 0;
+        res = std::stoll(m_str, &pos);
+        ok  = ::is_converted(m_str, pos);
     } catch (...) {
         ok = false;
     }
@@ -104,8 +120,9 @@ uint64_t cali::StringConverter::to_uint(bool* okptr, int base) const
     try {
         // stoull() accepts and wraps negative numbers
         if (m_str.find('-') == std::string::npos) {
-            res = std::stoull(m_str, nullptr, base);
-            ok  = true;
+            std::size_t pos = 0;
+            res = std::stoull(m_str, &pos, base);
+            ok  = ::is_converted(m_str, pos);
         }
     } catch (...) {
         ok = false;
@@ -123,8 +140,9 @@ double cali::StringConverter::to_double(bool* okptr) const
     double res = 0;
 
     try {
-        res = std::stod(m_str);
-        ok  = true;
+        std::size_t pos = 0;
+        res = std::stod(m_str, &pos);
+        ok  = ::is_converted(m_str, pos);
     } catch (...) {
         ok = false;
     }
-- 
2.43.0


From e354c12f7abdf62470442d23abb2c027645f69e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:33 +0000
Subject: [PATCH 077/110] fix: check the values of integer and floating-point
 configuration options

---
 src/caliper/ConfigManager.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/caliper/ConfigManager.cpp b/src/caliper/ConfigManager.cpp
index 2bcf641..bde2c6c 100644
--- a/src/caliper/ConfigManager.cpp
+++ b/src/caliper/ConfigManager.cpp
@@ -603,12 +603,17 @@ struct ConfigManager::Options::OptionsImpl {
             if (it == spec.data.end())
                 continue;
 
-            if (it->second.type == "bool") {
-                bool ok = false;
+            bool ok = true;
+
+            if (it->second.type == "bool")
                 StringConverter(arg.second).to_bool(&ok);
-                if (!ok)
-                    return std::string("Invalid value \"") + arg.second + std::string("\" for ") + arg.first;
-            }
+            else if (it->second.type == "int")
+                StringConverter(arg.second).to_int64(&ok);
+            else if (it->second.type == "double")
+                StringConverter(arg.second).to_double(&ok);
+
+            if (!ok)
+                return std::string("Invalid value \"") + arg.second + std::string("\" for ") + arg.first;
         }
 
         //
-- 
2.43.0


From 053b8ad532b5e0bde1dfc4dfdaa4361bd054c985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:55 +0000
Subject: [PATCH 078/110] fix: don't recurse endlessly on configuration options
 that inherit each other

---
 src/caliper/ConfigManager.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/caliper/ConfigManager.cpp b/src/caliper/ConfigManager.cpp
index bde2c6c..f16f0af 100644
--- a/src/caliper/ConfigManager.cpp
+++ b/src/caliper/ConfigManager.cpp
@@ -16,6 +16,7 @@
 
 #include <algorithm>
 #include <fstream>
+#include <set>
 #include <sstream>
 
 using namespace cali;
@@ -488,19 +489,19 @@ class ConfigManager::OptionSpec
             data[it->second.to_string()] = opt;
     }
 
-    std::vector<std::string> recursive_get_services_list(const std::string& cfg)
+    std::vector<std::string> recursive_get_services_list(const std::string& cfg, std::set<std::string>& visited)
     {
         std::vector<std::string> ret;
 
         auto it = data.find(cfg);
 
-        if (it == data.end())
+        if (it == data.end() || !visited.insert(cfg).second)
             return ret;
 
         ret = it->second.services;
 
         for (const std::string& s : it->second.inherited_specs) {
-            auto tmp = recursive_get_services_list(s);
+            auto tmp = recursive_get_services_list(s, visited);
             ret.insert(ret.end(), tmp.begin(), tmp.end());
         }
 
@@ -570,7 +571,8 @@ public:
         auto it = data.begin();
 
         while (it != data.end()) {
-            auto required = recursive_get_services_list(it->first);
+            std::set<std::string> visited;
+            auto required = recursive_get_services_list(it->first, visited);
 
             if (std::includes(available.begin(), available.end(), required.begin(), required.end()))
                 ++it;
@@ -718,16 +720,16 @@ struct ConfigManager::Options::OptionsImpl {
         return ret;
     }
 
-    std::vector<std::string> get_inherited_specs(const std::string& name)
+    std::vector<std::string> get_inherited_specs(const std::string& name, std::set<std::string>& visited)
     {
         std::vector<std::string> ret;
 
         auto spec_it = spec.data.find(name);
-        if (spec_it == spec.data.end())
+        if (spec_it == spec.data.end() || !visited.insert(name).second)
             return ret;
 
         for (const std::string& inh : spec_it->second.inherited_specs) {
-            auto tmp = get_inherited_specs(inh);
+            auto tmp = get_inherited_specs(inh, visited);
             ret.insert(ret.end(), tmp.begin(), tmp.end());
             ret.push_back(inh);
         }
@@ -751,7 +753,8 @@ struct ConfigManager::Options::OptionsImpl {
                 enabled = StringConverter(argp.second).to_bool();
             if (enabled) {
                 vec.push_back(argp.first);
-                auto tmp = get_inherited_specs(argp.first);
+                std::set<std::string> visited;
+                auto tmp = get_inherited_specs(argp.first, visited);
                 vec.insert(vec.end(), tmp.begin(), tmp.end());
             }
         }
-- 
2.43.0


From e75a233625ac23ad2f20a84c8e63f817ada0259b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:20 +0000
Subject: [PATCH 079/110] fix: report configuration and metadata files that
 cannot be read

---
 src/caliper/ConfigManager.cpp | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/caliper/ConfigManager.cpp b/src/caliper/ConfigManager.cpp
index f16f0af..ab6ce2f 100644
--- a/src/caliper/ConfigManager.cpp
+++ b/src/caliper/ConfigManager.cpp
@@ -256,19 +256,29 @@ unsigned add_metadata_entries(const std::string& key, const StringConverter& val
     return num_entries;
 }
 
+// read all of is into str
+bool read_file(std::istream& is, std::string& str)
+{
+    // note that directories can be opened, but not read
+    for (char buf[4096]; is.good();) {
+        is.read(buf, sizeof(buf));
+        str.append(buf, is.gcount());
+    }
+
+    return is.eof() && !is.bad();
+}
+
 void read_metadata_from_json_file(const std::string& filename, const std::string& keys, info_map_t& info)
 {
-    std::ifstream is(filename.c_str(), std::ios::ate);
+    std::ifstream is(filename.c_str());
 
     if (!is) {
         Log(0).stream() << "read_metadata_from_json_file(): Cannot open file " << filename << ", quitting\n";
         return;
     }
 
-    auto        size = is.tellg();
-    std::string str(size, '\0');
-    is.seekg(0);
-    if (!is.read(&str[0], size)) {
+    std::string str;
+    if (!read_file(is, str)) {
         Log(0).stream() << "read_metadata_from_json_file(): Cannot read file " << filename << ", quitting\n";
         return;
     }
@@ -1161,12 +1171,12 @@ struct ConfigManager::ConfigManagerImpl {
     // Load config and/or option specs from file
     void load_file(const std::string& filename)
     {
-        if (std::ifstream is { filename, std::ios::ate }) {
-            auto        size = is.tellg();
-            std::string str(size, '\0');
-            is.seekg(0);
-            if (is.read(&str[0], size))
+        if (std::ifstream is { filename }) {
+            std::string str;
+            if (::read_file(is, str))
                 parse_json_content(str);
+            else
+                set_error(std::string("Could not read file ") + filename);
         } else {
             set_error(std::string("Could not open file ") + filename);
         }
-- 
2.43.0


From 2d426a94d8c98985aef050beb5e8f29558dfc2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:20 +0000
Subject: [PATCH 080/110] fix: report malformed option specifications

---
 src/caliper/ConfigManager.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/caliper/ConfigManager.cpp b/src/caliper/ConfigManager.cpp
index ab6ce2f..c68171d 100644
--- a/src/caliper/ConfigManager.cpp
+++ b/src/caliper/ConfigManager.cpp
@@ -550,7 +550,13 @@ public:
             return;
 
         for (auto& p : list) {
-            parse_spec(p.rec_dict());
+            bool ok   = false;
+            auto dict = p.rec_dict(&ok);
+
+            if (ok)
+                parse_spec(dict);
+            else
+                set_error(": parse error");
 
             if (m_error) {
                 m_error_msg = std::string("option spec: ") + util::clamp_string(p.to_string(), 32) + m_error_msg;
-- 
2.43.0


From d611ff254a3b69bd11136250b7721f6487fc1b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:43 +0000
Subject: [PATCH 081/110] fix: don't create channels from configuration strings
 with unknown names

---
 src/caliper/ConfigManager.cpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/caliper/ConfigManager.cpp b/src/caliper/ConfigManager.cpp
index c68171d..fc6c061 100644
--- a/src/caliper/ConfigManager.cpp
+++ b/src/caliper/ConfigManager.cpp
@@ -1224,6 +1224,8 @@ struct ConfigManager::ConfigManagerImpl {
     {
         import_builtin_config_specs();
 
+        m_extra_vars.clear();
+
         std::vector<std::pair<const std::shared_ptr<config_spec_t>, arglist_t>> ret;
 
         std::istringstream is(config_string);
@@ -1309,7 +1311,7 @@ struct ConfigManager::ConfigManagerImpl {
         return opts;
     }
 
-    ChannelList parse(const char* config_string)
+    ChannelList parse(const char* config_string, bool allow_extra_vars)
     {
         auto configs = parse_configstring(config_string);
 
@@ -1319,6 +1321,11 @@ struct ConfigManager::ConfigManagerImpl {
         ChannelList ret;
         ret.reserve(configs.size());
 
+        if (!allow_extra_vars && !m_extra_vars.empty()) {
+            set_error("Unknown config or parameter: " + m_extra_vars.begin()->first);
+            return ChannelList();
+        }
+
         for (auto cfg : configs) {
             Options opts(options_for_config(*cfg.first), add_default_parameters(cfg.second, *cfg.first));
 
@@ -1336,9 +1343,9 @@ struct ConfigManager::ConfigManagerImpl {
         return ret;
     }
 
-    bool add(const char* config_string)
+    bool add(const char* config_string, bool allow_extra_vars)
     {
-        auto channels = parse(config_string);
+        auto channels = parse(config_string, allow_extra_vars);
         m_channels.insert(m_channels.end(), channels.begin(), channels.end());
         return !m_error;
     }
@@ -1442,7 +1449,7 @@ ConfigManager::ConfigManager() : mP(new ConfigManagerImpl)
 
 ConfigManager::ConfigManager(const char* config_string) : mP(new ConfigManagerImpl)
 {
-    mP->add(config_string);
+    mP->add(config_string, false);
 }
 
 ConfigManager::~ConfigManager()
@@ -1468,7 +1475,7 @@ void ConfigManager::add_option_spec(const char* json)
 
 ConfigManager::ChannelList ConfigManager::parse(const char* config_str)
 {
-    return mP->parse(config_str);
+    return mP->parse(config_str, true);
 }
 
 void ConfigManager::load(const char* filename)
@@ -1478,17 +1485,12 @@ void ConfigManager::load(const char* filename)
 
 bool ConfigManager::add(const char* config_str)
 {
-    mP->add(config_str);
-
-    if (!mP->m_extra_vars.empty())
-        mP->set_error("Unknown config or parameter: " + mP->m_extra_vars.begin()->first);
-
-    return !mP->m_error;
+    return mP->add(config_str, false);
 }
 
 bool ConfigManager::add(const char* config_string, argmap_t& extra_kv_pairs)
 {
-    mP->add(config_string);
+    mP->add(config_string, true);
 
     extra_kv_pairs.insert(mP->m_extra_vars.begin(), mP->m_extra_vars.end());
 
-- 
2.43.0


From c20241dfd56e1fe28dcab1f26c2c4a14eafdb5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:50 +0000
Subject: [PATCH 082/110] fix: separate the services of a config spec from
 those in its config

---
 src/caliper/ConfigManager.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/caliper/ConfigManager.cpp b/src/caliper/ConfigManager.cpp
index fc6c061..6824954 100644
--- a/src/caliper/ConfigManager.cpp
+++ b/src/caliper/ConfigManager.cpp
@@ -990,8 +990,12 @@ struct ConfigManager::ConfigManagerImpl {
             for (const auto& p : it->second.rec_dict(&ok))
                 spec.initial_cfg[p.first] = p.second.to_string();
 
-        if (cfg_srvcs.size() > 0)
-            spec.initial_cfg["CALI_SERVICES_ENABLE"].append(::join_stringlist(cfg_srvcs));
+        if (cfg_srvcs.size() > 0) {
+            std::string& services_str = spec.initial_cfg["CALI_SERVICES_ENABLE"];
+            if (!services_str.empty())
+                services_str.append(",");
+            services_str.append(::join_stringlist(cfg_srvcs));
+        }
 
         it = dict.find("defaults");
         if (ok && !m_error && it != dict.end())
-- 
2.43.0


From 39bce9bc6911d663a1dc8098aa264f6d8c172057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:39 +0000
Subject: [PATCH 083/110] fix: report invalid options in config specs

---
 src/caliper/ConfigManager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/caliper/ConfigManager.cpp b/src/caliper/ConfigManager.cpp
index 6824954..ab685d3 100644
--- a/src/caliper/ConfigManager.cpp
+++ b/src/caliper/ConfigManager.cpp
@@ -985,6 +985,8 @@ struct ConfigManager::ConfigManagerImpl {
         it = dict.find("options");
         if (ok && !m_error && it != dict.end())
             spec.opts.add(it->second.rec_list(&ok));
+        if (spec.opts.error())
+            set_error(spec.name + std::string(": ") + spec.opts.error_msg());
         it = dict.find("config");
         if (ok && !m_error && it != dict.end())
             for (const auto& p : it->second.rec_dict(&ok))
-- 
2.43.0


From 9ca9009affa25b710bbb13221418ccdf59de8d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:46 +0000
Subject: [PATCH 084/110] fix: make calls after finalization harmless

---
 src/caliper/Caliper.cpp | 122 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 113 insertions(+), 9 deletions(-)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index b81c791..028bdee 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -23,7 +23,6 @@
 #include <signal.h>
 
 #include <atomic>
-#include <cassert>
 #include <chrono>
 #include <cstring>
 #include <cstdlib>
@@ -825,7 +824,8 @@ Attribute Caliper::create_attribute(
     const Variant*     meta_val
 )
 {
-    assert(sG != 0);
+    if (!sG)
+        return Attribute();
 
     std::lock_guard<::siglock> g(sT->lock);
 
@@ -909,6 +909,9 @@ Attribute Caliper::create_attribute(
 
 Attribute Caliper::get_attribute(const std::string& name) const
 {
+    if (!sG)
+        return Attribute();
+
     std::lock_guard<::siglock>  gs(sT->lock);
     std::lock_guard<std::mutex> ga(sG->attribute_lock);
 
@@ -918,12 +921,18 @@ Attribute Caliper::get_attribute(const std::string& name) const
 
 Attribute Caliper::get_attribute(cali_id_t id) const
 {
+    if (!sG)
+        return Attribute();
+
     // no signal lock necessary
     return Attribute::make_attribute(sT->tree.node(id));
 }
 
 std::vector<Attribute> Caliper::get_all_attributes() const
 {
+    if (!sG)
+        return {};
+
     std::lock_guard<::siglock>  g(sT->lock);
     std::lock_guard<std::mutex> g_a(sG->attribute_lock);
 
@@ -952,6 +961,9 @@ void Caliper::memory_region_begin(
     const Variant*   extra_vals
 )
 {
+    if (!sG)
+        return;
+
     for (auto& channel : *sG->active_channels)
         memory_region_begin(channel.body(), ptr, label, elem_size, ndim, dims, nextra, extra_attrs, extra_vals);
 }
@@ -959,6 +971,9 @@ void Caliper::memory_region_begin(
 /// Dispatch memory region annotation end across all active channels
 void Caliper::memory_region_end(const void* ptr)
 {
+    if (!sG)
+        return;
+
     for (auto& channel : *sG->active_channels)
         memory_region_end(channel.body(), ptr);
 }
@@ -967,6 +982,9 @@ void Caliper::memory_region_end(const void* ptr)
 /// blackboard.
 std::vector<Entry> Caliper::get_globals()
 {
+    if (!sG)
+        return {};
+
     std::lock_guard<::siglock> g(sT->lock);
 
     return get_globals_from_blackboard(this, sG->process_blackboard, sG->process_blackboard_lock);
@@ -976,6 +994,9 @@ std::vector<Entry> Caliper::get_globals()
 /// and the process blackboard.
 std::vector<Entry> Caliper::get_globals(ChannelBody* chB)
 {
+    if (!sG)
+        return {};
+
     std::lock_guard<::siglock> g(sT->lock);
 
     std::vector<Entry> ret = get_globals_from_blackboard(this, sG->process_blackboard, sG->process_blackboard_lock);
@@ -990,6 +1011,9 @@ std::vector<Entry> Caliper::get_globals(ChannelBody* chB)
 
 void Caliper::pull_context(SnapshotBuilder& rec)
 {
+    if (!sG)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     // Get thread blackboard data
@@ -1002,6 +1026,9 @@ void Caliper::pull_context(SnapshotBuilder& rec)
 
 void Caliper::pull_snapshot(ChannelBody* chB, SnapshotView trigger_info, SnapshotBuilder& rec)
 {
+    if (!sG)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     rec.append(trigger_info);
@@ -1014,6 +1041,9 @@ void Caliper::pull_snapshot(ChannelBody* chB, SnapshotView trigger_info, Snapsho
 
 void Caliper::push_snapshot(ChannelBody* chB, SnapshotView trigger_info)
 {
+    if (!sG)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     sT->snapshot.reset();
@@ -1031,6 +1061,9 @@ void Caliper::push_snapshot(ChannelBody* chB, SnapshotView trigger_info)
 
 void Caliper::push_snapshot_replace(ChannelBody* chB, SnapshotView trigger_info, const Entry& target)
 {
+    if (!sG)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     sT->snapshot.reset();
@@ -1050,6 +1083,9 @@ void Caliper::push_snapshot_replace(ChannelBody* chB, SnapshotView trigger_info,
 
 void Caliper::flush(ChannelBody* chB, SnapshotView flush_info, SnapshotFlushFn proc_fn)
 {
+    if (!sG)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     chB->events.pre_flush_evt(this, chB, flush_info);
@@ -1073,6 +1109,9 @@ void Caliper::flush(ChannelBody* chB, SnapshotView flush_info, SnapshotFlushFn p
 
 void Caliper::flush_and_write(ChannelBody* chB, SnapshotView input_flush_info)
 {
+    if (!sG)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     SnapshotRecord flush_info;
@@ -1095,6 +1134,9 @@ void Caliper::flush_and_write(ChannelBody* chB, SnapshotView input_flush_info)
 
 void Caliper::clear(Channel* chn)
 {
+    if (!sG)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     chn->mP->events.clear_evt(this, chn);
@@ -1104,7 +1146,7 @@ void Caliper::clear(Channel* chn)
 
 void Caliper::begin(const Attribute& attr, const Variant& data)
 {
-    if (sT->stack_error || !attr)
+    if (!sG || sT->stack_error || !attr)
         return;
 
     int prop  = attr.properties();
@@ -1142,7 +1184,7 @@ void Caliper::begin(const Attribute& attr, const Variant& data)
 
 void Caliper::end(const Attribute& attr)
 {
-    if (sT->stack_error || !attr)
+    if (!sG || sT->stack_error || !attr)
         return;
 
     int prop  = attr.properties();
@@ -1197,7 +1239,7 @@ void Caliper::end(const Attribute& attr)
 
 void Caliper::end_with_value_check(const Attribute& attr, const Variant& data)
 {
-    if (sT->stack_error || !attr)
+    if (!sG || sT->stack_error || !attr)
         return;
 
     int prop  = attr.properties();
@@ -1253,7 +1295,7 @@ void Caliper::end_with_value_check(const Attribute& attr, const Variant& data)
 
 void Caliper::set(const Attribute& attr, const Variant& data)
 {
-    if (sT->stack_error || !attr)
+    if (!sG || sT->stack_error || !attr)
         return;
 
     int prop  = attr.properties();
@@ -1283,6 +1325,9 @@ void Caliper::set(const Attribute& attr, const Variant& data)
 
 void Caliper::async_event(SnapshotView info)
 {
+    if (!sG)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     for (auto& channel : *sG->active_channels)
@@ -1291,7 +1336,7 @@ void Caliper::async_event(SnapshotView info)
 
 void Caliper::begin(ChannelBody* chB, const Attribute& attr, const Variant& data)
 {
-    if (!attr)
+    if (!sG || !attr)
         return;
 
     int  prop       = attr.properties();
@@ -1316,7 +1361,7 @@ void Caliper::begin(ChannelBody* chB, const Attribute& attr, const Variant& data
 
 void Caliper::end(ChannelBody* chB, const Attribute& attr)
 {
-    if (!attr)
+    if (!sG || !attr)
         return;
 
     int  prop       = attr.properties();
@@ -1359,7 +1404,7 @@ void Caliper::end(ChannelBody* chB, const Attribute& attr)
 
 void Caliper::set(ChannelBody* chB, const Attribute& attr, const Variant& data)
 {
-    if (!attr)
+    if (!sG || !attr)
         return;
 
     int  prop       = attr.properties();
@@ -1380,6 +1425,9 @@ void Caliper::set(ChannelBody* chB, const Attribute& attr, const Variant& data)
 
 Entry Caliper::get(const Attribute& attr)
 {
+    if (!sG)
+        return Entry();
+
     int prop  = attr.properties();
     int scope = prop & CALI_ATTR_SCOPE_MASK;
 
@@ -1399,6 +1447,9 @@ Entry Caliper::get(const Attribute& attr)
 
 void Caliper::release_thread_entries(const Attribute& attr)
 {
+    if (!sG)
+        return;
+
     cali_id_t key = get_blackboard_key(attr.id(), attr.properties());
 
     std::lock_guard<::siglock>  g(sT->lock);
@@ -1410,6 +1461,9 @@ void Caliper::release_thread_entries(const Attribute& attr)
 
 Entry Caliper::get_blackboard_entry(const Attribute& attr)
 {
+    if (!sG)
+        return Entry();
+
     int prop  = attr.properties();
     int scope = prop & CALI_ATTR_SCOPE_MASK;
 
@@ -1429,6 +1483,9 @@ Entry Caliper::get_blackboard_entry(const Attribute& attr)
 
 Entry Caliper::get(ChannelBody* chB, const Attribute& attr)
 {
+    if (!sG)
+        return Entry();
+
     cali_id_t key = get_blackboard_key(attr.id(), attr.properties());
 
     std::lock_guard<::siglock> g(sT->lock);
@@ -1439,6 +1496,9 @@ Entry Caliper::get(ChannelBody* chB, const Attribute& attr)
 
 Entry Caliper::get_path_node()
 {
+    if (!sG)
+        return Entry();
+
     Entry e;
 
     {
@@ -1473,12 +1533,18 @@ void Caliper::memory_region_begin(
     const Variant*   extra_vals
 )
 {
+    if (!sG)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
     chB->events.track_mem_evt(this, chB, ptr, label, elem_size, ndims, dims, n, extra_attrs, extra_vals);
 }
 
 void Caliper::memory_region_end(ChannelBody* chB, const void* ptr)
 {
+    if (!sG)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
     chB->events.untrack_mem_evt(this, chB, ptr);
 }
@@ -1487,6 +1553,9 @@ void Caliper::memory_region_end(ChannelBody* chB, const void* ptr)
 
 void Caliper::make_record(size_t n, const Attribute attr[], const Variant value[], SnapshotBuilder& rec, Node* parent)
 {
+    if (!sG)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     Node* node = parent;
@@ -1503,30 +1572,45 @@ void Caliper::make_record(size_t n, const Attribute attr[], const Variant value[
 
 Node* Caliper::make_tree_entry(size_t n, const Node* nodelist[], Node* parent)
 {
+    if (!sG)
+        return nullptr;
+
     std::lock_guard<::siglock> g(sT->lock);
     return sT->tree.get_path(n, nodelist, parent);
 }
 
 Node* Caliper::make_tree_entry(const Attribute& attr, const Variant& data, Node* parent)
 {
+    if (!sG)
+        return nullptr;
+
     std::lock_guard<::siglock> g(sT->lock);
     return sT->tree.get_child(attr, data, parent);
 }
 
 Node* Caliper::make_tree_entry(const Attribute& attr, size_t n, const Variant data[], Node* parent)
 {
+    if (!sG)
+        return nullptr;
+
     std::lock_guard<::siglock> g(sT->lock);
     return sT->tree.get_path(attr, n, data, parent);
 }
 
 Node* Caliper::node(cali_id_t id) const
 {
+    if (!sG)
+        return nullptr;
+
     // no siglock necessary
     return sT->tree.node(id);
 }
 
 Variant Caliper::exchange(const Attribute& attr, const Variant& data)
 {
+    if (!sG)
+        return Variant();
+
     int prop  = attr.properties();
     int scope = prop & CALI_ATTR_SCOPE_MASK;
 
@@ -1553,6 +1637,9 @@ Variant Caliper::exchange(const Attribute& attr, const Variant& data)
 
 Channel Caliper::create_channel(const char* name, const RuntimeConfig& cfg)
 {
+    if (!sG)
+        return Channel();
+
     std::lock_guard<::siglock> g(sT->lock);
 
     Log(1).stream() << "Creating channel " << name << std::endl;
@@ -1595,6 +1682,9 @@ Channel Caliper::create_channel(const char* name, const RuntimeConfig& cfg)
 
 Channel Caliper::get_channel(cali_id_t id)
 {
+    if (!sG)
+        return Channel();
+
     auto it = std::find_if(sG->all_channels.begin(), sG->all_channels.end(), [id](const Channel& channel) {
         return id == channel.id();
     });
@@ -1604,11 +1694,17 @@ Channel Caliper::get_channel(cali_id_t id)
 
 std::vector<Channel> Caliper::get_all_channels()
 {
+    if (!sG)
+        return {};
+
     return sG->all_channels;
 }
 
 void Caliper::delete_channel(Channel& channel)
 {
+    if (!sG)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     channel.mP->events.pre_finish_evt(this, &channel);
@@ -1626,6 +1722,8 @@ void Caliper::delete_channel(Channel& channel)
 
 void Caliper::activate_channel(Channel& channel)
 {
+    if (!sG)
+        return;
     if (!channel.mP->is_active) {
         std::lock_guard<::siglock> g(sT->lock);
         channel.mP->events.activate_evt(this, &channel);
@@ -1637,6 +1735,9 @@ void Caliper::activate_channel(Channel& channel)
 
 void Caliper::deactivate_channel(Channel& channel)
 {
+    if (!sG)
+        return;
+
     sG->remove_active_channel(channel);
     channel.mP->is_active = false;
 }
@@ -1644,6 +1745,9 @@ void Caliper::deactivate_channel(Channel& channel)
 /// \brief Release current thread
 void Caliper::release_thread()
 {
+    if (!sG)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     for (auto& channel : sG->all_channels)
-- 
2.43.0


From a130dec06a3bb36c57d4a812665081c83b630f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:46 +0000
Subject: [PATCH 085/110] fix: keep channels alive while they are being deleted

---
 src/caliper/Caliper.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index 028bdee..61a06ad 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -1700,13 +1700,16 @@ std::vector<Channel> Caliper::get_all_channels()
     return sG->all_channels;
 }
 
-void Caliper::delete_channel(Channel& channel)
+void Caliper::delete_channel(Channel& channel_ref)
 {
     if (!sG)
         return;
 
     std::lock_guard<::siglock> g(sT->lock);
 
+    // A finish_evt callback may reset the caller's object: keep the channel until we're done
+    Channel channel(channel_ref);
+
     channel.mP->events.pre_finish_evt(this, &channel);
 
     Log(1).stream() << "Releasing channel " << channel.name() << std::endl;
-- 
2.43.0


From 71ded94bf330be62b59946743dedf6319eb420c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:46 +0000
Subject: [PATCH 086/110] fix: keep the service and config registries during
 static destruction

---
 src/caliper/ConfigManager.cpp | 5 +++--
 src/services/Services.cpp     | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/caliper/ConfigManager.cpp b/src/caliper/ConfigManager.cpp
index ab685d3..3218bd1 100644
--- a/src/caliper/ConfigManager.cpp
+++ b/src/caliper/ConfigManager.cpp
@@ -93,12 +93,13 @@ public:
 
     static ConfigSpecManager* instance()
     {
-        static std::unique_ptr<ConfigSpecManager> mP { new ConfigSpecManager };
+        // Not destroyed: Caliper may still be used during the destruction of static objects
+        static ConfigSpecManager* mP = new ConfigSpecManager;
 
         if (mP->m_configs.empty())
             mP->add_controller_specs(builtin_controllers_table);
 
-        return mP.get();
+        return mP;
     }
 };
 
diff --git a/src/services/Services.cpp b/src/services/Services.cpp
index 831c4e7..1fb762e 100644
--- a/src/services/Services.cpp
+++ b/src/services/Services.cpp
@@ -138,8 +138,9 @@ public:
 
     static ServicesManager* instance()
     {
-        static std::unique_ptr<ServicesManager> inst { new ServicesManager };
-        return inst.get();
+        // Not destroyed: Caliper may still be used during the destruction of static objects
+        static ServicesManager* inst = new ServicesManager;
+        return inst;
     }
 };
 
-- 
2.43.0


From 8b91f63ce1a972f11faada911a1e4a1ff8d736bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:14 +0000
Subject: [PATCH 087/110] fix: open shared output streams only once

---
 src/common/OutputStream.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/common/OutputStream.cpp b/src/common/OutputStream.cpp
index 30c7b5e..3c0978d 100644
--- a/src/common/OutputStream.cpp
+++ b/src/common/OutputStream.cpp
@@ -7,6 +7,7 @@
 
 #include "caliper/common/Log.h"
 
+#include <atomic>
 #include <cstring>
 #include <fstream>
 #include <iostream>
@@ -93,8 +94,8 @@ struct OutputStream::OutputStreamImpl {
     StreamType type;
     Mode       mode;
 
-    bool       is_initialized;
-    std::mutex init_mutex;
+    std::atomic<bool> is_initialized;
+    std::mutex        init_mutex;
 
 #ifdef CALI_OSTREAM_USE_STD_FILESYSTEM
     std::filesystem::path filename;
@@ -107,12 +108,14 @@ struct OutputStream::OutputStreamImpl {
 
     void init()
     {
-        if (is_initialized)
+        if (is_initialized.load())
             return;
 
         std::lock_guard<std::mutex> g(init_mutex);
 
-        is_initialized = true;
+        //   Another thread may have opened the stream while we waited
+        if (is_initialized.load())
+            return;
 
         if (type == StreamType::File) {
             check_and_create_directory(filename);
@@ -124,6 +127,8 @@ struct OutputStream::OutputStreamImpl {
                 Log(0).stream() << "Could not open output stream " << filename << std::endl;
             }
         }
+
+        is_initialized.store(true);
     }
 
     std::ostream* stream()
-- 
2.43.0


From 3847e306bd22aeaa860f2e57d025280c540fe39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:14 +0000
Subject: [PATCH 088/110] fix: report output files that could not be written

---
 src/common/OutputStream.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/common/OutputStream.cpp b/src/common/OutputStream.cpp
index 3c0978d..8e4ce69 100644
--- a/src/common/OutputStream.cpp
+++ b/src/common/OutputStream.cpp
@@ -151,9 +151,21 @@ struct OutputStream::OutputStreamImpl {
         return &fs;
     }
 
-    void reset()
+    //   Close the file and report if the output couldn't be written completely
+    void close()
     {
+        if (!fs.is_open())
+            return;
+
         fs.close();
+
+        if (!fs)
+            Log(0).stream() << "Could not write output stream " << filename << std::endl;
+    }
+
+    void reset()
+    {
+        close();
         filename.clear();
         user_os        = nullptr;
         type           = StreamType::None;
@@ -165,6 +177,8 @@ struct OutputStream::OutputStreamImpl {
     OutputStreamImpl(const char* name)
         : type(StreamType::None), mode(Truncate), is_initialized(false), filename(name), user_os(nullptr)
     {}
+
+    ~OutputStreamImpl() { close(); }
 };
 
 OutputStream::OutputStream() : mP(new OutputStreamImpl)
-- 
2.43.0


From 572bc139419dd361d35e829580da3e454b7f64a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:00 +0000
Subject: [PATCH 089/110] fix: make generated file names safe for concurrent
 flushes

---
 src/common/util/file_util.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/common/util/file_util.cpp b/src/common/util/file_util.cpp
index f52b895..ea0281e 100644
--- a/src/common/util/file_util.cpp
+++ b/src/common/util/file_util.cpp
@@ -11,6 +11,7 @@
 
 #include <algorithm>
 #include <chrono>
+#include <mutex>
 #include <random>
 
 namespace
@@ -45,6 +46,10 @@ namespace util
 
 std::string create_filename(const char* ext)
 {
+    //   localtime() and the random number generator are not thread-safe
+    static std::mutex           lock;
+    std::lock_guard<std::mutex> g(lock);
+
     char   timestring[16];
     time_t tm = std::chrono::system_clock::to_time_t(std::chrono::system_clock::now());
     strftime(timestring, sizeof(timestring), "%y%m%d-%H%M%S", localtime(&tm));
-- 
2.43.0


From 05afa028418250e47d4bb3848ae9d9854e119b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:00 +0000
Subject: [PATCH 090/110] fix: don't modify the report specification while
 flushing

---
 src/services/report/Report.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/services/report/Report.cpp b/src/services/report/Report.cpp
index 6c9c648..011e95a 100644
--- a/src/services/report/Report.cpp
+++ b/src/services/report/Report.cpp
@@ -35,10 +35,6 @@ class Report
 
     void write_output(Caliper* c, ChannelBody* chB, SnapshotView flush_info)
     {
-        // set format default to table if it hasn't been set in the query config
-        if (m_spec.format.opt == QuerySpec::FormatSpec::Default)
-            m_spec.format = CalQLParser("format table").spec().format;
-
         OutputStream stream;
         stream.set_stream(OutputStream::StdOut);
 
@@ -89,7 +85,13 @@ public:
         if (Log::verbosity() >= 3)
             Log(3).stream() << channel->name() << ": report: query: " << parser.spec() << std::endl;
 
-        Report* instance = new Report(parser.spec(), config);
+        QuerySpec spec(parser.spec());
+
+        // set format default to table if it hasn't been set in the query config
+        if (spec.format.opt == QuerySpec::FormatSpec::Default)
+            spec.format = CalQLParser("format table").spec().format;
+
+        Report* instance = new Report(spec, config);
 
         channel->events().write_output_evt.connect([instance](Caliper* c, ChannelBody* chB, SnapshotView info) {
             instance->write_output(c, chB, info);
-- 
2.43.0


From 508150d6dc633388c8c46af95d698b263242fc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:58 +0000
Subject: [PATCH 091/110] fix: don't flush the timeseries profile in signal
 handlers

---
 src/services/monitor/Timeseries.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/services/monitor/Timeseries.cpp b/src/services/monitor/Timeseries.cpp
index 64ed961..1a520ec 100644
--- a/src/services/monitor/Timeseries.cpp
+++ b/src/services/monitor/Timeseries.cpp
@@ -43,6 +43,10 @@ class TimeseriesService
 
     void snapshot_cb(Caliper* c, SnapshotView info, SnapshotBuilder& srec)
     {
+        // flushing the profile is not signal safe
+        if (c->is_signal())
+            return;
+
         double  ts_now = get_timestamp();
         Variant v_prev = c->exchange(m_timestamp_attr, Variant(ts_now));
 
-- 
2.43.0


From 42c990839bacd20eb6bb991bcde49a88dd0ac9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:53 +0000
Subject: [PATCH 092/110] fix: don't use the heap or log output for trace
 buffer overflows in signal handlers

---
 src/services/trace/Trace.cpp            | 27 +++++++++++--
 src/services/trace/TraceBufferChunk.cpp | 51 +++++++++++++++++++++++--
 src/services/trace/TraceBufferChunk.h   | 21 +++++++++-
 3 files changed, 89 insertions(+), 10 deletions(-)

diff --git a/src/services/trace/Trace.cpp b/src/services/trace/Trace.cpp
index 1463bc1..2c9cf8d 100644
--- a/src/services/trace/Trace.cpp
+++ b/src/services/trace/Trace.cpp
@@ -40,9 +40,9 @@ class Trace
         TraceBuffer*      next;
         TraceBuffer*      prev;
 
-        TraceBuffer(size_t s) : stopped(false), busy(false), retired(false), chunks(new TraceBufferChunk(s)), next(0), prev(0) {}
+        TraceBuffer(size_t s) : stopped(false), busy(false), retired(false), chunks(TraceBufferChunk::create(s, false)), next(0), prev(0) {}
 
-        ~TraceBuffer() { delete chunks; }
+        ~TraceBuffer() { TraceBufferChunk::destroy(chunks); }
 
         //   Called by the writer before and after it modifies the buffer. The
         // writer must drop the snapshot if the buffer is stopped.
@@ -126,16 +126,29 @@ class Trace
 
     TraceBuffer* handle_overflow(Caliper* c, TraceBuffer* tbuf)
     {
+        // Inside a signal handler, we can't write log messages, use the heap, or flush
+        const bool is_signal = c->is_signal();
+
         switch (policy) {
         case BufferPolicy::Stop:
             tbuf->stopped.store(true);
             tbuf->end_write();
-            Log(1).stream() << m_channel.name() << ": trace: Trace buffer full, recording stopped!\n";
+            if (is_signal)
+                ++dropped_snapshots;
+            else
+                Log(1).stream() << m_channel.name() << ": trace: Trace buffer full, recording stopped!\n";
             return 0;
 
         case BufferPolicy::Grow:
             {
-                TraceBufferChunk* newchunk = new TraceBufferChunk(buffersize);
+                TraceBufferChunk* newchunk = TraceBufferChunk::create(buffersize, is_signal);
+
+                if (!newchunk && is_signal) {
+                    // we may be able to grow the buffer next time
+                    tbuf->end_write();
+                    ++dropped_snapshots;
+                    return 0;
+                }
 
                 if (!newchunk) {
                     Log(0).stream() << m_channel.name() << ": trace: Unable to allocate new trace buffer, recording stopped!\n";
@@ -152,6 +165,12 @@ class Trace
 
         case BufferPolicy::Flush:
             {
+                if (is_signal) {
+                    tbuf->end_write();
+                    ++dropped_snapshots;
+                    return 0;
+                }
+
                 Log(1).stream() << m_channel.name() << ": trace: Trace buffer full, flushing.\n";
                 tbuf->end_write(); // we, or other threads, need to stop and flush this buffer
                 c->flush_and_write(m_channel.body(), SnapshotView());
diff --git a/src/services/trace/TraceBufferChunk.cpp b/src/services/trace/TraceBufferChunk.cpp
index e35627a..79ae8e5 100644
--- a/src/services/trace/TraceBufferChunk.cpp
+++ b/src/services/trace/TraceBufferChunk.cpp
@@ -10,15 +10,58 @@
 
 #include "../../common/util/vlenc.h"
 
+#include <new>
+
+#ifndef _WIN32
+#include <sys/mman.h>
+#endif
+
 using namespace trace;
 using namespace cali;
 
 TraceBufferChunk::~TraceBufferChunk()
 {
-    delete[] m_data;
+    if (m_mapped == 0)
+        delete[] m_data;
 
-    if (m_next)
-        delete m_next;
+    destroy(m_next);
+}
+
+TraceBufferChunk* TraceBufferChunk::create(size_t s, bool signal)
+{
+    if (!signal)
+        return new TraceBufferChunk(s, new unsigned char[s], 0);
+
+        // The heap is off limits in a signal handler: map the memory directly
+
+#if !defined(_WIN32) && defined(MAP_ANONYMOUS)
+    const size_t len = sizeof(TraceBufferChunk) + s;
+    void*        ptr = mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
+
+    if (ptr != MAP_FAILED)
+        return new (ptr) TraceBufferChunk(s, static_cast<unsigned char*>(ptr) + sizeof(TraceBufferChunk), len);
+#endif
+
+    return nullptr;
+}
+
+void TraceBufferChunk::destroy(TraceBufferChunk* chunk)
+{
+    if (!chunk)
+        return;
+
+    const size_t len = chunk->m_mapped;
+
+    if (len == 0) {
+        delete chunk;
+        return;
+    }
+
+    chunk->~TraceBufferChunk();
+
+#ifndef _WIN32
+    munmap(chunk, len);
+#endif
 }
 
 void TraceBufferChunk::append(TraceBufferChunk* chunk)
@@ -36,7 +79,7 @@ void TraceBufferChunk::reset()
 
     memset(m_data, 0, m_size);
 
-    delete m_next;
+    destroy(m_next);
     m_next = 0;
 }
 
diff --git a/src/services/trace/TraceBufferChunk.h b/src/services/trace/TraceBufferChunk.h
index 1fefae8..879530f 100644
--- a/src/services/trace/TraceBufferChunk.h
+++ b/src/services/trace/TraceBufferChunk.h
@@ -20,12 +20,29 @@ class TraceBufferChunk
 
     TraceBufferChunk* m_next;
 
-public:
+    // size of the memory mapping that holds this chunk and its data, 0 if it is on the heap
+    size_t m_mapped;
 
-    TraceBufferChunk(size_t s) : m_size(s), m_pos(0), m_nrec(0), m_data(new unsigned char[s]), m_next(0) {}
+    TraceBufferChunk(size_t s, unsigned char* data, size_t mapped)
+        : m_size(s), m_pos(0), m_nrec(0), m_data(data), m_next(0), m_mapped(mapped)
+    {}
 
     ~TraceBufferChunk();
 
+public:
+
+    TraceBufferChunk(const TraceBufferChunk&) = delete;
+    TraceBufferChunk& operator= (const TraceBufferChunk&) = delete;
+
+    /// \brief Create a trace buffer chunk
+    /// \param s      Buffer size in bytes
+    /// \param signal Use only operations that are safe in a signal handler
+    /// \return The chunk, or null if it could not be allocated
+    static TraceBufferChunk* create(size_t s, bool signal);
+
+    /// \brief Delete the chunk and the ones appended to it
+    static void destroy(TraceBufferChunk* chunk);
+
     void append(TraceBufferChunk* chunk);
     void reset();
 
-- 
2.43.0


From a8c1abefec0aeba7b76c96aa5beb2d4f15d18479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:53 +0000
Subject: [PATCH 093/110] fix: make sampling with a frequency of 1 Hz work

---
 src/services/sampler/Sampler.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/services/sampler/Sampler.cpp b/src/services/sampler/Sampler.cpp
index 976bcae..e44d7dc 100644
--- a/src/services/sampler/Sampler.cpp
+++ b/src/services/sampler/Sampler.cpp
@@ -143,10 +143,10 @@ void setup_settimer(Caliper* c)
 
     struct itimerspec spec;
 
-    spec.it_interval.tv_sec  = 0;
-    spec.it_interval.tv_nsec = nsec_interval;
-    spec.it_value.tv_sec     = 0;
-    spec.it_value.tv_nsec    = nsec_interval;
+    // tv_nsec must be smaller than 1e9
+    spec.it_interval.tv_sec  = nsec_interval / 1000000000;
+    spec.it_interval.tv_nsec = nsec_interval % 1000000000;
+    spec.it_value            = spec.it_interval;
 
     if (timer_settime(twrap->timer, 0, &spec, NULL) == -1) {
         Log(0).stream() << "Sampler: timer_settime() failed" << std::endl;
-- 
2.43.0


From 86553a11b365a3cc08b87b05fc3cd1b36c068aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:53 +0000
Subject: [PATCH 094/110] fix: don't record samples while the sampling channel
 is inactive

---
 src/services/sampler/Sampler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/services/sampler/Sampler.cpp b/src/services/sampler/Sampler.cpp
index e44d7dc..0e8390f 100644
--- a/src/services/sampler/Sampler.cpp
+++ b/src/services/sampler/Sampler.cpp
@@ -67,7 +67,7 @@ void on_prof(int sig, siginfo_t* info, void* context)
 
     Caliper c = Caliper::sigsafe_instance();
 
-    if (!c)
+    if (!c || !channel.is_active())
         return;
 
     Entry    data[2];
-- 
2.43.0


From 702f1924afd48fc2307c862137801dcc4c6bc8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:11 +0000
Subject: [PATCH 095/110] fix: delete the sampling timers of all threads when a
 sampling channel is deleted

---
 src/services/sampler/Sampler.cpp | 102 +++++++++++++++++++++++++------
 1 file changed, 83 insertions(+), 19 deletions(-)

diff --git a/src/services/sampler/Sampler.cpp b/src/services/sampler/Sampler.cpp
index 0e8390f..95ca1d5 100644
--- a/src/services/sampler/Sampler.cpp
+++ b/src/services/sampler/Sampler.cpp
@@ -11,8 +11,13 @@
 
 #include "caliper/common/Log.h"
 
+#include <algorithm>
+#include <atomic>
 #include <cstdlib>
 #include <cstring>
+#include <mutex>
+#include <thread>
+#include <vector>
 #include <signal.h>
 #include <time.h>
 #include <sys/time.h>
@@ -41,11 +46,24 @@ Attribute ucursor_attr;
 
 int nsec_interval = 0;
 
-int n_samples           = 0;
-int n_processed_samples = 0;
+std::atomic<int> n_samples { 0 };
+std::atomic<int> n_processed_samples { 0 };
 
 Channel channel;
 
+// Is sampling enabled? If so, the signal handlers may use the channel
+std::atomic<bool> sampling_enabled { false };
+// Number of signal handlers that are currently running
+std::atomic<int> n_active_handlers { 0 };
+
+struct TimerWrap {
+    timer_t timer;
+};
+
+// All active timers
+std::vector<TimerWrap*> timer_list;
+std::mutex              timer_list_lock;
+
 const char* spec = R"json(
 {
 "name": "sampler",
@@ -61,10 +79,8 @@ const char* spec = R"json(
 ]}
 )json";
 
-void on_prof(int sig, siginfo_t* info, void* context)
+void process_sample(void* context)
 {
-    ++n_samples;
-
     Caliper c = Caliper::sigsafe_instance();
 
     if (!c || !channel.is_active())
@@ -97,6 +113,16 @@ void on_prof(int sig, siginfo_t* info, void* context)
     ++n_processed_samples;
 }
 
+void on_prof(int sig, siginfo_t* info, void* context)
+{
+    ++n_samples;
+
+    ++n_active_handlers;
+    if (sampling_enabled.load())
+        process_sample(context);
+    --n_active_handlers;
+}
+
 void setup_signal()
 {
     sigset_t sigset;
@@ -120,10 +146,6 @@ void clear_signal()
     signal(SIGPROF, SIG_IGN);
 }
 
-struct TimerWrap {
-    timer_t timer;
-};
-
 void setup_settimer(Caliper* c)
 {
     struct sigevent sev;
@@ -134,9 +156,9 @@ void setup_settimer(Caliper* c)
     sev._sigev_un._tid = syscall(SYS_gettid);
     sev.sigev_signo    = SIGPROF;
 
-    TimerWrap* twrap = new TimerWrap;
+    timer_t timer;
 
-    if (timer_create(CLOCK_MONOTONIC, &sev, &twrap->timer) == -1) {
+    if (timer_create(CLOCK_MONOTONIC, &sev, &timer) == -1) {
         Log(0).stream() << "sampler: timer_create() failed" << std::endl;
         return;
     }
@@ -148,9 +170,22 @@ void setup_settimer(Caliper* c)
     spec.it_interval.tv_nsec = nsec_interval % 1000000000;
     spec.it_value            = spec.it_interval;
 
-    if (timer_settime(twrap->timer, 0, &spec, NULL) == -1) {
-        Log(0).stream() << "Sampler: timer_settime() failed" << std::endl;
-        return;
+    TimerWrap* twrap = new TimerWrap { timer };
+
+    {
+        std::lock_guard<std::mutex> g(timer_list_lock);
+
+        bool enabled = sampling_enabled.load(); // is the channel being deleted?
+
+        if (!enabled || timer_settime(timer, 0, &spec, NULL) == -1) {
+            if (enabled)
+                Log(0).stream() << "Sampler: timer_settime() failed" << std::endl;
+            timer_delete(timer);
+            delete twrap;
+            return;
+        }
+
+        timer_list.push_back(twrap);
     }
 
     Variant v_timer(cali_make_variant_from_ptr(twrap));
@@ -163,22 +198,41 @@ void clear_timer(Caliper* c, Channel* chn)
 {
     Entry e = c->get(timer_attr);
 
-    if (e.empty()) {
-        Log(0).stream() << chn->name() << ": Sampler: Timer attribute not found\n";
+    //   Threads that were created before the channel don't have a timer
+    if (e.empty())
         return;
-    }
 
     TimerWrap* twrap = static_cast<TimerWrap*>(e.value().get_ptr());
 
-    if (!twrap)
+    std::lock_guard<std::mutex> g(timer_list_lock);
+
+    auto it = std::find(timer_list.begin(), timer_list.end(), twrap);
+
+    if (it == timer_list.end())
         return;
 
     Log(2).stream() << chn->name() << ": Sampler: Deleting timer " << e.value() << std::endl;
 
+    timer_list.erase(it);
+
     timer_delete(twrap->timer);
     delete twrap;
 }
 
+void clear_all_timers(Caliper* c, Channel* chn)
+{
+    std::lock_guard<std::mutex> g(timer_list_lock);
+
+    Log(2).stream() << chn->name() << ": Sampler: Deleting " << timer_list.size() << " timers" << std::endl;
+
+    for (TimerWrap* twrap : timer_list) {
+        timer_delete(twrap->timer);
+        delete twrap;
+    }
+
+    timer_list.clear();
+}
+
 void create_thread_cb(Caliper* c, Channel* chn)
 {
     setup_settimer(c);
@@ -191,8 +245,15 @@ void release_thread_cb(Caliper* c, Channel* chn)
 
 void pre_finish_cb(Caliper* c, Channel* chn)
 {
-    clear_timer(c, chn);
+    //   Threads may still be running: stop all of their timers, and wait until
+    // their signal handlers are done with the channel
+    sampling_enabled.store(false);
+
+    clear_all_timers(c, chn);
     clear_signal();
+
+    while (n_active_handlers.load() > 0)
+        std::this_thread::yield();
 }
 
 void finish_cb(Caliper* c, Channel* chn)
@@ -203,6 +264,8 @@ void finish_cb(Caliper* c, Channel* chn)
     n_samples           = 0;
     n_processed_samples = 0;
 
+    c->release_thread_entries(timer_attr);
+
     channel = Channel();
 }
 
@@ -252,6 +315,7 @@ void sampler_register(Caliper* c, Channel* chn)
     chn->events().finish_evt.connect(finish_cb);
 
     channel = *chn;
+    sampling_enabled.store(true);
 
     setup_signal();
     setup_settimer(c);
-- 
2.43.0


From c71a8bcfab33ac81499d9c5a853c849054460c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:13 +0000
Subject: [PATCH 096/110] fix: don't initialize thread-local objects in signal
 handlers

---
 src/caliper/Caliper.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index 61a06ad..c396169 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -489,10 +489,19 @@ struct Caliper::GlobalData {
         Log(1).stream() << "Initialized" << std::endl;
     }
 
-    ThreadData* add_thread_data(ThreadData* t)
+    static void set_thread_data(ThreadData* t)
     {
         tObj.t_ptr = t;
 
+        // now signal handlers on this thread can access the thread-local object
+        std::atomic_signal_fence(std::memory_order_release);
+        s_have_tobj = true;
+    }
+
+    ThreadData* add_thread_data(ThreadData* t)
+    {
+        set_thread_data(t);
+
         std::lock_guard<std::mutex> g(thread_data_lock);
 
         thread_data.push_back(t);
@@ -506,7 +515,7 @@ struct Caliper::GlobalData {
             std::lock_guard<std::mutex> g(thread_data_lock);
 
             if (!released_thread_data.empty()) {
-                tObj.t_ptr = released_thread_data.back();
+                set_thread_data(released_thread_data.back());
                 released_thread_data.pop_back();
                 return tObj.t_ptr;
             }
@@ -592,6 +601,10 @@ struct Caliper::GlobalData {
     static S_GObject                gObj;
     static thread_local S_TLSObject tObj;
 
+    //   Has the calling thread's S_TLSObject been initialized? The first access
+    // allocates memory to register the destructor, don't do that in signals
+    static thread_local bool s_have_tobj;
+
     // the thread that loads Caliper, typically the main thread
     static const std::thread::id s_main_thread_id;
 };
@@ -605,6 +618,7 @@ const std::thread::id Caliper::GlobalData::s_main_thread_id { std::this_thread::
 
 Caliper::GlobalData::S_GObject                Caliper::GlobalData::gObj;
 thread_local Caliper::GlobalData::S_TLSObject Caliper::GlobalData::tObj;
+thread_local bool                             Caliper::GlobalData::s_have_tobj { false };
 
 const ConfigSet::Entry Caliper::GlobalData::s_configdata[] = {
     // key, type, value, short description, long description
@@ -1834,6 +1848,9 @@ Caliper Caliper::instance()
 
 Caliper Caliper::sigsafe_instance()
 {
+    if (!GlobalData::s_have_tobj)
+        return Caliper(GlobalData::gObj.g_ptr, nullptr, true);
+
     return Caliper(GlobalData::gObj.g_ptr, GlobalData::tObj.t_ptr, true);
 }
 
-- 
2.43.0


From 1ab3e68294a40f52b8da0b010f429207a3e244fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:07 +0000
Subject: [PATCH 097/110] fix: don't copy from null buffers when packing nodes
 and snapshots

---
 src/common/NodeBuffer.cpp     | 3 ++-
 src/common/SnapshotBuffer.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common/NodeBuffer.cpp b/src/common/NodeBuffer.cpp
index 7cb2952..3ef8f3c 100644
--- a/src/common/NodeBuffer.cpp
+++ b/src/common/NodeBuffer.cpp
@@ -89,7 +89,8 @@ unsigned char* NodeBuffer::reserve(size_t min)
     m_reserved_len = 4096 + min * 2;
 
     unsigned char* tmp = new unsigned char[m_reserved_len];
-    memcpy(tmp, m_buffer, m_pos);
+    if (m_pos > 0)
+        memcpy(tmp, m_buffer, m_pos);
     delete[] m_buffer;
     m_buffer = tmp;
 
diff --git a/src/common/SnapshotBuffer.cpp b/src/common/SnapshotBuffer.cpp
index feda754..1554433 100644
--- a/src/common/SnapshotBuffer.cpp
+++ b/src/common/SnapshotBuffer.cpp
@@ -20,7 +20,8 @@ unsigned char* SnapshotBuffer::reserve(size_t min)
     m_reserved_len = 4096 + min * 2;
 
     unsigned char* tmp = new unsigned char[m_reserved_len];
-    memcpy(tmp, m_buffer, m_pos);
+    if (m_pos > 0)
+        memcpy(tmp, m_buffer, m_pos);
     delete[] m_buffer;
     m_buffer = tmp;
 
-- 
2.43.0


From 3cb780bef7dc98eb99d412f525fe10d564ecbe39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:29 +0000
Subject: [PATCH 098/110] fix: read unaligned values in cali_make_variant()
 with memcpy

---
 src/common/cali_variant.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/common/cali_variant.c b/src/common/cali_variant.c
index 5ec4ada..8f5f5f7 100644
--- a/src/common/cali_variant.c
+++ b/src/common/cali_variant.c
@@ -108,20 +108,20 @@ cali_variant_t cali_make_variant(cali_attr_type type, const void* ptr, size_t si
         }
         break;
     case CALI_TYPE_INT:
-        v.value.v_int = *((const int64_t*) ptr);
+        memcpy(&v.value.v_int, ptr, sizeof(int64_t));
         break;
     case CALI_TYPE_ADDR:
     case CALI_TYPE_UINT:
-        v.value.v_uint = *((const uint64_t*) ptr);
+        memcpy(&v.value.v_uint, ptr, sizeof(uint64_t));
         break;
     case CALI_TYPE_DOUBLE:
-        v.value.v_double = *((const double*) ptr);
+        memcpy(&v.value.v_double, ptr, sizeof(double));
         break;
     case CALI_TYPE_BOOL:
         v.value.v_bool = *((const bool*) ptr);
         break;
     case CALI_TYPE_TYPE:
-        v.value.v_type = *((const cali_attr_type*) ptr);
+        memcpy(&v.value.v_type, ptr, sizeof(cali_attr_type));
         break;
     case CALI_TYPE_PTR:
         v.value.unmanaged_const_ptr = ptr;
-- 
2.43.0


From b47797d13cb71677c1b6178c47b8bd1b0b42b0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:27 +0000
Subject: [PATCH 099/110] fix: don't drop partial aggregation results for
 attributes unknown to the receiver

---
 src/reader/Aggregator.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/reader/Aggregator.cpp b/src/reader/Aggregator.cpp
index f9342e1..b270486 100644
--- a/src/reader/Aggregator.cpp
+++ b/src/reader/Aggregator.cpp
@@ -101,8 +101,12 @@ public:
 
     Attribute derived_attr(CaliperMetadataAccessInterface& db)
     {
-        if (!m_derived_attr && target_attr(db))
-            m_derived_attr = db.create_attribute(m_prefix+m_name, m_target_attr.type(), s_prop | m_prop);
+        if (!m_derived_attr) {
+            if (target_attr(db))
+                m_derived_attr = db.create_attribute(m_prefix+m_name, m_target_attr.type(), s_prop | m_prop);
+            else // there may be partial results (e.g., from other processes) without the target attribute
+                m_derived_attr = db.get_attribute(m_prefix+m_name);
+        }
         return m_derived_attr;
     }
 };
@@ -544,9 +548,9 @@ public:
     int aggregate(CaliperMetadataAccessInterface& db, const EntryList& list) override
     {
         Attribute tgt_attr = m_config->m_sum_attr.target_attr(db);
-        if (!tgt_attr)
-            return 0;
         Attribute sum_attr = m_config->m_sum_attr.derived_attr(db);
+        if (!sum_attr)
+            return 0;
         Attribute count_attr = m_config->m_count_attr.get(db);
         int count = 0;
 
@@ -826,7 +830,8 @@ public:
 
         bool get_statistics_attributes(CaliperMetadataAccessInterface& db, StatisticsAttributes& a)
         {
-            if (!m_target_attr)
+            // there may be partial results (e.g., from other processes) without the target attribute
+            if (!m_target_attr && !db.get_attribute("var.sum#" + m_target_attr_name))
                 return false;
             if (a.sum) {
                 a = m_stat_attrs;
-- 
2.43.0


From 24813ca113b80f88c975adabc6758e9124d0514a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:46 +0000
Subject: [PATCH 100/110] fix: keep string and blob values of merged snapshots
 in the metadata DB

---
 src/reader/CaliperMetadataDB.cpp | 36 ++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/reader/CaliperMetadataDB.cpp b/src/reader/CaliperMetadataDB.cpp
index 843c6db..7ea0fbd 100644
--- a/src/reader/CaliperMetadataDB.cpp
+++ b/src/reader/CaliperMetadataDB.cpp
@@ -14,6 +14,8 @@
 #include <iostream>
 #include <map>
 #include <mutex>
+#include <set>
+#include <string>
 #include <vector>
 
 using namespace cali;
@@ -40,6 +42,7 @@ struct CaliperMetadataDB::CaliperMetadataDBImpl {
     mutable std::mutex           m_attribute_lock;
 
     std::vector<const char*> m_string_db;
+    std::set<std::string>    m_blob_db;
     mutable std::mutex       m_string_db_lock;
 
     std::vector<Entry> m_globals;
@@ -142,6 +145,21 @@ struct CaliperMetadataDB::CaliperMetadataDBImpl {
         return Variant(CALI_TYPE_STRING, ptr, len);
     }
 
+    /// Make a value that lives as long as the DB
+    Variant import_value(const Variant& val)
+    {
+        if (val.type() == CALI_TYPE_STRING)
+            return make_string_variant(static_cast<const char*>(val.data()), val.size());
+        if (val.type() == CALI_TYPE_USR && val.size() > 0) {
+            std::lock_guard<std::mutex> g(m_string_db_lock);
+
+            auto it = m_blob_db.emplace(static_cast<const char*>(val.data()), val.size()).first;
+            return Variant(CALI_TYPE_USR, it->data(), it->size());
+        }
+
+        return val;
+    }
+
     Variant make_variant(cali_attr_type type, const std::string& str)
     {
         Variant ret;
@@ -240,7 +258,7 @@ struct CaliperMetadataDB::CaliperMetadataDBImpl {
         const cali_id_t attr_ids[],
         const Variant   values[],
         const IdMap&    idmap
-    ) const
+    )
     {
         EntryList list;
         list.reserve(n_nodes + n_imm);
@@ -248,7 +266,7 @@ struct CaliperMetadataDB::CaliperMetadataDBImpl {
         for (size_t i = 0; i < n_nodes; ++i)
             list.push_back(Entry(node(::map_id(node_ids[i], idmap))));
         for (size_t i = 0; i < n_imm; ++i)
-            list.push_back(Entry(attribute(::map_id(attr_ids[i], idmap)), values[i]));
+            list.push_back(Entry(attribute(::map_id(attr_ids[i], idmap)), import_value(values[i])));
 
         return list;
     }
@@ -263,10 +281,7 @@ struct CaliperMetadataDB::CaliperMetadataDBImpl {
         Node* attr_node = recursive_merge_node(db.node(node->attribute()), db);
         Node* parent    = recursive_merge_node(node->parent(), db);
 
-        Variant v_data = node->data();
-
-        if (v_data.type() == CALI_TYPE_STRING)
-            v_data = make_string_variant(static_cast<const char*>(v_data.data()), v_data.size());
+        Variant v_data = import_value(node->data());
 
         return merge_node(node->id(), attr_node->id(), parent ? parent->id() : CALI_INV_ID, v_data);
     }
@@ -282,7 +297,7 @@ struct CaliperMetadataDB::CaliperMetadataDBImpl {
             if (e.is_reference())
                 list.push_back(Entry(node));
             else if (e.is_immediate())
-                list.push_back(Entry(Attribute::make_attribute(node), e.value()));
+                list.push_back(Entry(Attribute::make_attribute(node), import_value(e.value())));
         }
 
         return list;
@@ -524,13 +539,8 @@ Node* CaliperMetadataDB::merge_node(
     IdMap&         idmap
 )
 {
-    Variant v_data = value;
-
     // if value is a string, find or insert it in string DB
-    if (v_data.type() == CALI_TYPE_STRING)
-        v_data = mP->make_string_variant(static_cast<const char*>(value.data()), value.size());
-
-    return mP->merge_node(node_id, attr_id, prnt_id, v_data, idmap);
+    return mP->merge_node(node_id, attr_id, prnt_id, mP->import_value(value), idmap);
 }
 
 Node* CaliperMetadataDB::merge_node(
-- 
2.43.0


From fe5d765d15c6ee583b77831114cc12f5fe9e05ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:46 +0000
Subject: [PATCH 101/110] fix: process filters and aliases in mpi-caliquery
 like in cali-query

---
 src/tools/mpi-caliquery/mpi-caliquery.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tools/mpi-caliquery/mpi-caliquery.cpp b/src/tools/mpi-caliquery/mpi-caliquery.cpp
index e9bbc38..f4583dc 100644
--- a/src/tools/mpi-caliquery/mpi-caliquery.cpp
+++ b/src/tools/mpi-caliquery/mpi-caliquery.cpp
@@ -131,10 +131,11 @@ void process_my_input(int rank, const Args& args, const QuerySpec& spec, Caliper
     };
     SnapshotProcessFn snap_proc = aggregate;
 
-    if (!spec.preprocess_ops.empty())
-        snap_proc = SnapshotFilterStep(Preprocessor(spec), snap_proc);
+    // filters see the results of preprocessing operations: the last step we add is the first one in the chain
     if (spec.filter.selection == QuerySpec::FilterSelection::List)
         snap_proc = SnapshotFilterStep(RecordSelector(spec), snap_proc);
+    if (!spec.preprocess_ops.empty())
+        snap_proc = SnapshotFilterStep(Preprocessor(spec), snap_proc);
 
     CaliReader reader;
     reader.read(filename, db, node_proc, snap_proc);
@@ -237,6 +238,9 @@ int main(int argc, char* argv[])
     Aggregator        aggregate(spec);
     CaliperMetadataDB metadb;
 
+    metadb.add_attribute_aliases(spec.aliases);
+    metadb.add_attribute_units(spec.units);
+
     // --- Process our own input
     //
 
-- 
2.43.0


From 2c69a035e9e220599bf5052815306020a24074c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:46 +0000
Subject: [PATCH 102/110] fix: don't drop entries of large records in
 aggregate_over_mpi()

---
 src/caliper/aggregate_over_mpi.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/caliper/aggregate_over_mpi.cpp b/src/caliper/aggregate_over_mpi.cpp
index 5d8bbec..7f44771 100644
--- a/src/caliper/aggregate_over_mpi.cpp
+++ b/src/caliper/aggregate_over_mpi.cpp
@@ -6,6 +6,7 @@
 #include "caliper/reader/Aggregator.h"
 #include "caliper/reader/CaliperMetadataDB.h"
 
+#include "caliper/common/Log.h"
 #include "caliper/common/Node.h"
 
 #include "../common/CompressedSnapshotRecord.h"
@@ -13,6 +14,7 @@
 #include "../common/SnapshotBuffer.h"
 
 #include <set>
+#include <vector>
 
 using namespace cali;
 
@@ -59,7 +61,19 @@ void pack_and_send(int dest, CaliperMetadataAccessInterface& db, Aggregator& agg
                 else if (e.is_immediate())
                     recursive_append_path(db, db.node(e.attribute()), nodebuf, written_nodes);
 
-            snapbuf.append(CompressedSnapshotRecord(list.size(), list.data()));
+            CompressedSnapshotRecord rec(list.size(), list.data());
+
+            if (rec.num_skipped() == 0) {
+                snapbuf.append(rec);
+            } else { // needs more space than the record's internal buffer provides
+                std::vector<unsigned char> buf(rec.needed_len());
+                CompressedSnapshotRecord   large_rec(buf.size(), buf.data());
+
+                if (large_rec.append(list.size(), list.data()) > 0)
+                    Log(0).stream() << "aggregate_over_mpi: record exceeds 127 entries, dropping some" << std::endl;
+
+                snapbuf.append(large_rec);
+            }
         }
     );
 
-- 
2.43.0


From bc51b673c79b509568e9599da93c3bb5e87fbdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:46 +0000
Subject: [PATCH 103/110] fix: send the contents of string entries in
 aggregate_over_mpi()

---
 src/caliper/aggregate_over_mpi.cpp | 42 +++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/src/caliper/aggregate_over_mpi.cpp b/src/caliper/aggregate_over_mpi.cpp
index 7f44771..f3e7789 100644
--- a/src/caliper/aggregate_over_mpi.cpp
+++ b/src/caliper/aggregate_over_mpi.cpp
@@ -45,16 +45,37 @@ void recursive_append_path(
     buf.append(node);
 }
 
+bool is_pointer_value(const Variant& v)
+{
+    return v.type() == CALI_TYPE_STRING || v.type() == CALI_TYPE_USR;
+}
+
+// Packed immediate string and blob entries are pointers: collect their contents
+void append_contents(const CompressedSnapshotRecordView& view, std::vector<char>& contents)
+{
+    cali_id_t attr_ids[128];
+    Variant   values[128];
+
+    view.unpack_immediate(128, attr_ids, values);
+
+    for (size_t i = 0; i < view.num_immediates(); ++i)
+        if (is_pointer_value(values[i])) {
+            const char* p = static_cast<const char*>(values[i].data());
+            contents.insert(contents.end(), p, p + values[i].size());
+        }
+}
+
 void pack_and_send(int dest, CaliperMetadataAccessInterface& db, Aggregator& aggregator, MPI_Comm comm)
 {
     NodeBuffer     nodebuf;
     SnapshotBuffer snapbuf;
 
+    std::vector<char>   contents; // contents of immediate string and blob entries
     std::set<cali_id_t> written_nodes;
 
     aggregator.flush(
         db,
-        [&nodebuf, &snapbuf, &written_nodes](CaliperMetadataAccessInterface& db, const EntryList& list) {
+        [&nodebuf, &snapbuf, &contents, &written_nodes](CaliperMetadataAccessInterface& db, const EntryList& list) {
             for (const Entry& e : list)
                 if (e.node())
                     recursive_append_path(db, e.node(), nodebuf, written_nodes);
@@ -65,6 +86,7 @@ void pack_and_send(int dest, CaliperMetadataAccessInterface& db, Aggregator& agg
 
             if (rec.num_skipped() == 0) {
                 snapbuf.append(rec);
+                append_contents(rec.view(), contents);
             } else { // needs more space than the record's internal buffer provides
                 std::vector<unsigned char> buf(rec.needed_len());
                 CompressedSnapshotRecord   large_rec(buf.size(), buf.data());
@@ -73,6 +95,7 @@ void pack_and_send(int dest, CaliperMetadataAccessInterface& db, Aggregator& agg
                     Log(0).stream() << "aggregate_over_mpi: record exceeds 127 entries, dropping some" << std::endl;
 
                 snapbuf.append(large_rec);
+                append_contents(large_rec.view(), contents);
             }
         }
     );
@@ -90,6 +113,7 @@ void pack_and_send(int dest, CaliperMetadataAccessInterface& db, Aggregator& agg
 
         MPI_Send(&snapcount, 1, MPI_UNSIGNED, dest, 3, comm);
         MPI_Send(const_cast<unsigned char*>(snapbuf.data()), snapbuf.size(), MPI_BYTE, dest, 4, comm);
+        MPI_Send(contents.data(), contents.size(), MPI_BYTE, dest, 5, comm);
     }
 }
 
@@ -138,6 +162,15 @@ size_t receive_and_merge_snapshots(
 
     MPI_Recv(snapbuf.import(size, count), size, MPI_BYTE, source, 4, comm, MPI_STATUS_IGNORE);
 
+    MPI_Probe(source, 5, comm, &status);
+    MPI_Get_count(&status, MPI_BYTE, &size);
+
+    std::vector<char> contents(size);
+
+    MPI_Recv(contents.data(), size, MPI_BYTE, source, 5, comm, MPI_STATUS_IGNORE);
+
+    const char* next_content = contents.data();
+
     size_t pos = 0;
 
     for (size_t i = 0; i < snapbuf.count(); ++i) {
@@ -151,6 +184,13 @@ size_t receive_and_merge_snapshots(
         view.unpack_nodes(128, node_ids);
         view.unpack_immediate(128, attr_ids, values);
 
+        for (size_t k = 0; k < view.num_immediates(); ++k)
+            if (is_pointer_value(values[k])) {
+                size_t len = values[k].size();
+                values[k]  = Variant(values[k].type(), next_content, len);
+                next_content += len;
+            }
+
         snap_fn(db, db.merge_snapshot(view.num_nodes(), node_ids, view.num_immediates(), attr_ids, values, idmap));
     }
 
-- 
2.43.0


From 09caaef3f210d45c8c5fe9eede1254aeb8845872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:58 +0000
Subject: [PATCH 104/110] fix: accept MPI_COMM_NULL in MpiChannelManager

---
 src/caliper/MpiChannelManager.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/caliper/MpiChannelManager.cpp b/src/caliper/MpiChannelManager.cpp
index ee48522..4b7166c 100644
--- a/src/caliper/MpiChannelManager.cpp
+++ b/src/caliper/MpiChannelManager.cpp
@@ -67,11 +67,8 @@ struct MpiChannelManager::MpiChannelManagerImpl {
 
     MpiChannelManagerImpl(MPI_Comm comm_) : comm { comm_ }
     {
-        MPI_Group group;
-        MPI_Comm_group(comm, &group);
-        int rank;
-        MPI_Group_rank(group, &rank);
-        is_in_comm = (rank != MPI_UNDEFINED);
+        // ranks that are not part of the communicator have MPI_COMM_NULL
+        is_in_comm = (comm != MPI_COMM_NULL);
     }
 };
 
-- 
2.43.0


From 737df6071d4f5fac8a85a368de2914a97b10b43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:58 +0000
Subject: [PATCH 105/110] fix: append to the output file in
 CollectiveOutputChannel when configured

---
 src/caliper/CollectiveOutputChannel.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/caliper/CollectiveOutputChannel.cpp b/src/caliper/CollectiveOutputChannel.cpp
index 7d28484..b9f395c 100644
--- a/src/caliper/CollectiveOutputChannel.cpp
+++ b/src/caliper/CollectiveOutputChannel.cpp
@@ -118,6 +118,9 @@ public:
             stream.set_stream(OutputStream::StdOut);
         } else {
             Caliper c;
+            auto    append_it = cfg.find("CALI_MPIREPORT_APPEND");
+            if (append_it != cfg.end() && StringConverter(append_it->second).to_bool())
+                stream.set_mode(OutputStream::Mode::Append);
             stream.set_filename(it->second.c_str(), c, c.get_globals());
         }
 
-- 
2.43.0


From 52dea6aba448f604a8531f0c6cd3d29ce70940dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:45 +0000
Subject: [PATCH 106/110] fix: drop inclusive timer stacks of earlier channel
 activations

Begin and end events are missed while a channel is inactive. The stale
timestamps stayed on the per-thread stack, so that the end of an outer
region was matched with the begin of an inner one.
---
 src/services/timer/Timer.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/services/timer/Timer.cpp b/src/services/timer/Timer.cpp
index 6aab820..7ba1f3a 100644
--- a/src/services/timer/Timer.cpp
+++ b/src/services/timer/Timer.cpp
@@ -35,10 +35,13 @@ class TimerService
         // The timestamp of the last snapshot on this channel+thread
         uint64_t prev_snapshot_timestamp;
 
+        // The channel activation in which the inclusive timer stack was filled
+        uint64_t stack_activation_timestamp;
+
         // A per-attribute stack of timestamps for computing inclusive times
         std::map<cali_id_t, std::vector<uint64_t>> inclusive_timer_stack;
 
-        TimerInfo() : prev_snapshot_timestamp(0) {}
+        TimerInfo() : prev_snapshot_timestamp(0), stack_activation_timestamp(0) {}
     };
 
     using clock = std::chrono::steady_clock;
@@ -106,6 +109,14 @@ class TimerService
         ti->prev_snapshot_timestamp = nsec;
 
         if (record_inclusive_duration && !info.empty() && !c->is_signal()) {
+            uint64_t activation = activation_timestamp.load();
+
+            if (ti->stack_activation_timestamp != activation) {
+                // We missed begin/end events while the channel was inactive
+                ti->inclusive_timer_stack.clear();
+                ti->stack_activation_timestamp = activation;
+            }
+
             Attribute info_attr = c->get_attribute(info[0].attribute());
             Variant v_id = info_attr.get(begin_evt_attr);
 
-- 
2.43.0


From d8672cf98f4e874bc34f1f524604efa69fe18071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:18 +0000
Subject: [PATCH 107/110] fix: block snapshots in signal handlers while
 services set up a new thread

Like Caliper::release_thread(), the thread creation callbacks must hold the
thread's signal lock: a service's callback may hold a lock or be in the middle
of an update that a snapshot taken in a signal handler needs, e.g. the
statistics service deadlocked.
---
 src/caliper/Caliper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index c396169..fd89a88 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -1839,6 +1839,8 @@ Caliper Caliper::instance()
         tPtr = gPtr->acquire_thread_data();
         Caliper c(gPtr, tPtr, false);
 
+        std::lock_guard<::siglock> g(tPtr->lock);
+
         for (auto& channel : gPtr->all_channels)
             channel.mP->events.create_thread_evt(&c, &channel);
     }
-- 
2.43.0


From 7bac528bbe7ae8eb5ce7b99a40a0290c252d746e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:43 +0000
Subject: [PATCH 108/110] fix: evaluate < and > in cali-query's --select
 clauses

The option's documentation lists attribute<value and attribute>value, but
RecordSelector::parse() turned both into a mere existence test (and
dropped their negations).
---
 src/reader/RecordSelector.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/reader/RecordSelector.cpp b/src/reader/RecordSelector.cpp
index 7fd9c9a..3822c92 100644
--- a/src/reader/RecordSelector.cpp
+++ b/src/reader/RecordSelector.cpp
@@ -48,7 +48,8 @@ QuerySpec::Condition parse_clause(const std::string& str)
         struct ops_t {
             char                     c;
             QuerySpec::Condition::Op op;
-        } const ops[] = { // { '<', Op::Less     }, { '>', Op::Greater  },
+        } const ops[] = { { '<', QuerySpec::Condition::Op::LessThan },
+                          { '>', QuerySpec::Condition::Op::GreaterThan },
                           { '=', QuerySpec::Condition::Op::Equal },
                           { 0, QuerySpec::Condition::Op::Exist }
         };
@@ -65,8 +66,13 @@ QuerySpec::Condition parse_clause(const std::string& str)
             case QuerySpec::Condition::Op::Equal:
                 clause.op = QuerySpec::Condition::Op::NotEqual;
                 break;
+            case QuerySpec::Condition::Op::LessThan:
+                clause.op = QuerySpec::Condition::Op::GreaterOrEqual;
+                break;
+            case QuerySpec::Condition::Op::GreaterThan:
+                clause.op = QuerySpec::Condition::Op::LessOrEqual;
+                break;
             default:
-                // TODO: Handle remaining conditions
                 clause.op = QuerySpec::Condition::Op::None;
             }
         } else {
-- 
2.43.0


From a43d9aff961cb57d287a40365712d9a7cd8ce716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:16 +0000
Subject: [PATCH 109/110] fix: keep SELECT * when attributes are listed after
 it

"SELECT *,attr" selected attr only, whereas "SELECT attr,*" and
"SELECT *,sum(attr)" select all attributes as documented.
---
 src/reader/CalQLParser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/reader/CalQLParser.cpp b/src/reader/CalQLParser.cpp
index 5e3aa40..29876fe 100644
--- a/src/reader/CalQLParser.cpp
+++ b/src/reader/CalQLParser.cpp
@@ -319,8 +319,10 @@ struct CalQLParser::CalQLParserImpl {
                     if (w.empty())
                         set_error("Expected argument for SELECT", is);
                     else {
-                        spec.select.selection = QuerySpec::AttributeSelection::List;
-                        spec.select.list.push_back(w);
+                        if (spec.select.selection != QuerySpec::AttributeSelection::All) {
+                            spec.select.selection = QuerySpec::AttributeSelection::List;
+                            spec.select.list.push_back(w);
+                        }
 
                         selection_attr_name = w;
                     }
-- 
2.43.0


From 0f86a8b8cc52f8d1abed7f19248580e19bfa50f4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 08:18:34 +0000
Subject: [PATCH 110/110] fix: let annotation objects find attributes created
 elsewhere

Annotation::end() did nothing, and begin(int)/set(int) on an existing
double or uint attribute dropped the value, if the annotation object had
not been used before: it only knew attributes it had looked up in an
earlier begin() or set().
---
 src/caliper/Annotation.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/caliper/Annotation.cpp b/src/caliper/Annotation.cpp
index 8a7926f..a2a93fc 100644
--- a/src/caliper/Annotation.cpp
+++ b/src/caliper/Annotation.cpp
@@ -165,12 +165,28 @@ struct Annotation::Impl {
     void end()
     {
         Caliper   c;
-        Attribute attr = Attribute::make_attribute(m_attr_node.load());
+        Attribute attr = find_attribute(c);
 
         if (attr)
             c.end(attr);
     }
 
+    // Return the annotation's attribute if it exists already. It may have been
+    // created elsewhere, e.g. through another annotation object.
+    Attribute find_attribute(Caliper& c)
+    {
+        cali::Node* attr_node = m_attr_node.load();
+
+        if (!attr_node) {
+            attr_node = c.get_attribute(m_name).node();
+
+            if (attr_node)
+                m_attr_node.store(attr_node);
+        }
+
+        return Attribute::make_attribute(attr_node);
+    }
+
     Attribute get_attribute(Caliper& c, cali_attr_type type)
     {
         cali::Node* attr_node = m_attr_node.load();
@@ -253,7 +269,8 @@ Annotation& Annotation::begin()
 
 Annotation& Annotation::begin(int data)
 {
-    Attribute attr = Attribute::make_attribute(pI->m_attr_node.load());
+    Caliper   c;
+    Attribute attr = pI->find_attribute(c);
 
     // special case: allow assignment of int values to 'double' or 'uint' attributes
     if (attr && attr.type() == CALI_TYPE_DOUBLE)
@@ -279,7 +296,8 @@ Annotation& Annotation::begin(const Variant& data)
 
 Annotation& Annotation::set(int data)
 {
-    Attribute attr = Attribute::make_attribute(pI->m_attr_node.load());
+    Caliper   c;
+    Attribute attr = pI->find_attribute(c);
 
     // special case: allow assignment of int values to 'double' or 'uint' attributes
     if (attr && attr.type() == CALI_TYPE_DOUBLE)
-- 
2.43.0

