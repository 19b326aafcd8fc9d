From c701277a4bcf62fa8041ba351a44c82a8c9a90d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:06:32 +0000
Subject: [PATCH 01/31] fix: keep old tombstone versions absent when a long tx
 writes over them

A long transaction that wrote over a deleted record turned the deleted
version into a visible one with an empty value. Readers of an older
snapshot then saw the deleted key reappear.
---
 src/concurrency_control/interface/long_tx/termination.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index a2bd6ce..b72d7a9 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -172,8 +172,7 @@ static inline void expose_local_write(
                     if (wso.get_op() != OP_TYPE::DELETE) { wso.get_value(vb); }
                     version* new_v{new version( // NOLINT
                             vb, rec_ptr->get_latest())};
-                    // prepare tid for old version
-                    pre_tid.set_absent(false);
+                    // prepare tid for old version, it may be a tombstone
                     pre_tid.set_latest(false);
                     pre_tid.set_lock(false);
                     // set old version tid
-- 
2.43.0


From 73602c3cdc9285acd6a8faf6132f39cb8d26e727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:06:32 +0000
Subject: [PATCH 02/31] fix: decide existence for long tx update and delete by
 its own view

update and delete of a long transaction looked at the latest version of the
record instead of the version the transaction can read, and did not bound
the order of the transaction by the version looked at.
---
 src/concurrency_control/interface/delete.cpp | 17 +++++++++++++++--
 src/concurrency_control/interface/update.cpp | 17 +++++++++++++++--
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/concurrency_control/interface/delete.cpp b/src/concurrency_control/interface/delete.cpp
index 783e75e..b425c0a 100644
--- a/src/concurrency_control/interface/delete.cpp
+++ b/src/concurrency_control/interface/delete.cpp
@@ -92,6 +92,20 @@ static inline Status process_after_write(session* ti, write_set_obj* wso) {
     return Status::ERR_FATAL;
 }
 
+/**
+ * @brief check whether this tx finds the record absent.
+ * @details ltx must decide it by the version which ltx can read.
+ */
+static bool is_absent(session* const ti, Record* const rec_ptr) {
+    if (ti->get_tx_type() == transaction_options::transaction_type::LONG) {
+        std::string dummy{};
+        return long_tx::version_traverse_and_read(ti, rec_ptr, dummy, false) !=
+               Status::OK;
+    }
+    tid_word ctid{loadAcquire(rec_ptr->get_tidw_ref().get_obj())};
+    return ctid.get_absent();
+}
+
 static void process_before_return_not_found(session* const ti,
                                             Storage const storage,
                                             std::string_view const key) {
@@ -143,8 +157,7 @@ static Status delete_record_body(Token token, Storage storage,
         write_set_obj* in_ws{ti->get_write_set().search(rec_ptr)}; // NOLINT
         if (in_ws != nullptr) { return process_after_write(ti, in_ws); }
         // check absent
-        tid_word ctid{loadAcquire(rec_ptr->get_tidw_ref().get_obj())};
-        if (ctid.get_absent()) {
+        if (is_absent(ti, rec_ptr)) {
             process_before_return_not_found(ti, storage, key);
             return Status::WARN_NOT_FOUND;
         }
diff --git a/src/concurrency_control/interface/update.cpp b/src/concurrency_control/interface/update.cpp
index cb4c6b7..abfc427 100644
--- a/src/concurrency_control/interface/update.cpp
+++ b/src/concurrency_control/interface/update.cpp
@@ -18,6 +18,20 @@ static void register_read_if_ltx(session* const ti, Record* const rec_ptr) {
     }
 }
 
+/**
+ * @brief check whether this tx finds the record absent.
+ * @details ltx must decide it by the version which ltx can read.
+ */
+static bool is_absent(session* const ti, Record* const rec_ptr) {
+    if (ti->get_tx_type() == transaction_options::transaction_type::LONG) {
+        std::string dummy{};
+        return long_tx::version_traverse_and_read(ti, rec_ptr, dummy, false) !=
+               Status::OK;
+    }
+    tid_word ctid{loadAcquire(rec_ptr->get_tidw_ref().get_obj())};
+    return ctid.get_absent();
+}
+
 static void process_before_return_not_found(session* const ti,
                                             Storage const storage,
                                             std::string_view const key) {
@@ -83,8 +97,7 @@ static Status update_body(
         }
 
         // check absent
-        tid_word ctid{loadAcquire(rec_ptr->get_tidw_ref().get_obj())};
-        if (ctid.get_absent()) {
+        if (is_absent(ti, rec_ptr)) {
             process_before_return_not_found(ti, storage, key);
             return Status::WARN_NOT_FOUND;
         }
-- 
2.43.0


From a477b093bfe1baa57beb6b6717d74387e1da15bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:06:32 +0000
Subject: [PATCH 03/31] fix: let a long tx insert a key that its view does not
 contain

insert of a long transaction returned WARN_ALREADY_EXISTS for a record that
was written after its view, although it reads the key as not found.
---
 src/concurrency_control/interface/insert.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/concurrency_control/interface/insert.cpp b/src/concurrency_control/interface/insert.cpp
index 719fc38..9424f98 100644
--- a/src/concurrency_control/interface/insert.cpp
+++ b/src/concurrency_control/interface/insert.cpp
@@ -146,6 +146,13 @@ static Status insert_body(
                            transaction_options::transaction_type::LONG) {
                     // register read_by_set
                     register_read_if_ltx(ti, rec_ptr);
+                    std::string dummy{};
+                    if (long_tx::version_traverse_and_read(
+                                ti, rec_ptr, dummy, false) != Status::OK) {
+                        // the record was written after this tx's view
+                        ti->push_to_write_set({storage, OP_TYPE::INSERT, rec_ptr, val, false, std::move(lobs)});
+                        return Status::OK;
+                    }
                 } else {
                     LOG_FIRST_N(ERROR, 1) << log_location_prefix
                                           << "library programming error";
-- 
2.43.0


From 0d7cc2d8225685d415b616cb3870b1a158c15f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:06:32 +0000
Subject: [PATCH 04/31] fix: show a long tx its own write at the head of a scan

open_scan skipped a record the long transaction had written itself when the
stored versions were all newer than its view.
---
 src/concurrency_control/interface/scan/open_scan.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index 8f4363a..b64a1a2 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -68,6 +68,13 @@ static Status fin_process(session* const ti, Status const this_result) {
 }
 
 static Status check_not_found(session* ti, Storage st, Record* rec_ptr) {
+    if (ti->get_tx_type() == transaction_options::transaction_type::LONG) {
+        // check read own write
+        write_set_obj* inws = ti->get_write_set().search(rec_ptr);
+        if (inws != nullptr && inws->get_op() != OP_TYPE::DELETE) {
+            return Status::OK;
+        }
+    }
     tid_word tid{loadAcquire(rec_ptr->get_tidw().get_obj())};
     if (!tid.get_absent()) {
         // normal page.
-- 
2.43.0


From 97964ab27157f218e78e3a612e112d51dd3c9e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:06:32 +0000
Subject: [PATCH 05/31] fix: verify write preserves of every storage a short tx
 observed

Only the storages of found records were verified against write preserves at
commit. Reads that found nothing, and insert, update and delete, which
observe whether the record exists, were not. A short transaction could then
commit in the epoch of a long transaction it was not serializable with.
---
 src/concurrency_control/include/session.h     |  9 ++++--
 .../interface/scan/open_scan.cpp              |  2 +-
 .../interface/short_tx/search.cpp             |  2 +-
 .../interface/short_tx/termination.cpp        | 32 ++++++++++++++++++-
 4 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/concurrency_control/include/session.h b/src/concurrency_control/include/session.h
index 4bc46ed..7e1aabb 100644
--- a/src/concurrency_control/include/session.h
+++ b/src/concurrency_control/include/session.h
@@ -6,6 +6,7 @@
 
 #include <array>
 #include <atomic>
+#include <map>
 #include <mutex>
 #include <set>
 
@@ -37,7 +38,8 @@ namespace shirakami {
 
 class alignas(CACHE_LINE_SIZE) session {
 public:
-    using range_read_by_short_set_type = std::set<range_read_by_short*>;
+    using range_read_by_short_set_type =
+            std::map<range_read_by_short*, Storage>;
     using read_set_for_stx_type = std::vector<read_set_obj>;
     using wp_set_type = std::vector<std::pair<Storage, wp::wp_meta*>>;
     /**
@@ -441,11 +443,12 @@ public:
         get_range_read_by_short_set().clear();
     }
 
-    void push_to_range_read_by_short_set(range_read_by_short* rrbs) {
+    void push_to_range_read_by_short_set(range_read_by_short* rrbs,
+                                         Storage const storage) {
         // take write lock
         std::lock_guard<std::shared_mutex> lk{
                 get_mtx_range_read_by_short_set()};
-        get_range_read_by_short_set().insert(rrbs);
+        get_range_read_by_short_set().emplace(rrbs, storage);
     }
 
     void clear_read_set_for_stx() {
diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index b64a1a2..c571fd1 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -280,7 +280,7 @@ static Status open_scan_precheck(
             return Status::ERR_FATAL;
         }
         range_read_by_short* rrbs{psm->get_range_read_by_short_ptr()};
-        ti->push_to_range_read_by_short_set(rrbs);
+        ti->push_to_range_read_by_short_set(rrbs, storage);
     } else if (ti->get_tx_type() !=
                transaction_options::transaction_type::READ_ONLY) {
         LOG_FIRST_N(ERROR, 1) << log_location_prefix << "unreachable path";
diff --git a/src/concurrency_control/interface/short_tx/search.cpp b/src/concurrency_control/interface/short_tx/search.cpp
index 04018d6..58f0d92 100644
--- a/src/concurrency_control/interface/short_tx/search.cpp
+++ b/src/concurrency_control/interface/short_tx/search.cpp
@@ -63,7 +63,7 @@ Status search_key(session* ti, Storage const storage,
             return Status::ERR_FATAL;
         }
         range_read_by_short* rrbs{psm->get_range_read_by_short_ptr()};
-        ti->push_to_range_read_by_short_set(rrbs);
+        ti->push_to_range_read_by_short_set(rrbs, storage);
         return rc;
     }
 
diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index b033e04..aef8fdf 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -266,6 +266,34 @@ static Status read_wp_verify(session* const ti, epoch::epoch_t ce,
         commit_tid = std::max(check, commit_tid);
     }
 
+    // insert, update and delete observe whether the record exists
+    auto log_write = [&accessed_st](write_set_obj const& wso) {
+        if (wso.get_op() != OP_TYPE::UPSERT) {
+            accessed_st.emplace_back(wso.get_storage());
+        }
+    };
+    {
+        std::shared_lock<std::shared_mutex> lk{ti->get_write_set().get_mtx()};
+        if (ti->get_write_set().get_for_batch()) {
+            for (auto&& itr : ti->get_write_set().get_ref_cont_for_bt()) {
+                log_write(itr.second);
+            }
+        } else {
+            for (auto&& itr : ti->get_write_set().get_ref_cont_for_occ()) {
+                log_write(itr);
+            }
+        }
+    }
+
+    // reads which found no record
+    {
+        std::shared_lock<std::shared_mutex> lk{
+                ti->get_mtx_range_read_by_short_set()};
+        for (auto&& itr : ti->get_range_read_by_short_set()) {
+            accessed_st.emplace_back(itr.second);
+        }
+    }
+
     // wp verify
     // reduce redundat
     std::sort(accessed_st.begin(), accessed_st.end());
@@ -699,7 +727,9 @@ static void register_range_read_by_short(session* const ti) {
         //take read lock
         std::shared_lock<std::shared_mutex> lk{
                 ti->get_mtx_range_read_by_short_set()};
-        for (auto&& itr : ti->get_range_read_by_short_set()) { itr->push(ce); }
+        for (auto&& itr : ti->get_range_read_by_short_set()) {
+            itr.first->push(ce);
+        }
     }
 }
 
-- 
2.43.0


From 8628040895b43d0631d7c7a4f812232f4fc9ffaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:18:28 +0000
Subject: [PATCH 06/31] fix: protect every committed read at or after the epoch
 a long tx forwards to

The range read check only looked at readers of exactly the same epoch, and
the point read check stopped at the first lower priority reader although
the readers are kept in commit order.
---
 src/concurrency_control/read_by.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/concurrency_control/read_by.cpp b/src/concurrency_control/read_by.cpp
index ddac1f5..617465e 100644
--- a/src/concurrency_control/read_by.cpp
+++ b/src/concurrency_control/read_by.cpp
@@ -25,10 +25,9 @@ bool point_read_by_long::is_exist(Token token) {
         } else if (elem.second == ltx_id) {
             LOG_FIRST_N(ERROR, 1) << log_location_prefix << "unreachable path";
             return true;
-        } else {
-            // elem is low priori than this.
-            break;
         }
+        // else: elem is low priori than this. The elements are in commit order,
+        // so there may be high priori one after this.
     }
 
     return false;
@@ -89,7 +88,7 @@ bool range_read_by_long::is_exist(epoch::epoch_t const ep,
     for (auto&& elem : body_) {
         if (ltx_id > std::get<range_read_by_long::index_tx_id>(elem)) {
             // check against higher priori ltxs
-            if (std::get<range_read_by_long::index_epoch>(elem) == ep) {
+            if (std::get<range_read_by_long::index_epoch>(elem) >= ep) {
                 // check the key is right from left point
                 if (std::get<range_read_by_long::index_l_ep>(elem) ==
                             scan_endpoint::INF || // inf
@@ -113,10 +112,6 @@ bool range_read_by_long::is_exist(epoch::epoch_t const ep,
                     }
                 }
             }
-            if (std::get<range_read_by_long::index_epoch>(elem) > ep) {
-                // no more due to invariant
-                break;
-            }
         }
     }
 
-- 
2.43.0


From 4adf93494a2cc186bfbe051476ef1bf09ad29c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:18:28 +0000
Subject: [PATCH 07/31] fix: announce scans and existence checks in the read
 plan of a long tx

A long tx waiting for commit published only the keys it read by search, so
a lower priority long tx could write into the range it had scanned without
waiting for it.
---
 src/concurrency_control/include/session.h     | 20 +++++++++++++++++++
 src/concurrency_control/interface/helper.cpp  |  1 +
 .../interface/scan/open_scan.cpp              |  1 +
 3 files changed, 22 insertions(+)

diff --git a/src/concurrency_control/include/session.h b/src/concurrency_control/include/session.h
index 7e1aabb..68ef74b 100644
--- a/src/concurrency_control/include/session.h
+++ b/src/concurrency_control/include/session.h
@@ -518,6 +518,26 @@ public:
         }
     }
 
+    void insert_to_ltx_storage_read_set(Storage const st,
+                                        std::string_view const l_key,
+                                        scan_endpoint const l_end,
+                                        std::string_view const r_key,
+                                        scan_endpoint const r_end) {
+        // the range between the both keys
+        insert_to_ltx_storage_read_set(st, std::string(l_key));
+        insert_to_ltx_storage_read_set(st, std::string(r_key));
+
+        // open ended
+        std::lock_guard<std::shared_mutex> lk{get_mtx_ltx_storage_read_set()};
+        auto& range = get_ltx_storage_read_set()[st];
+        if (l_end == scan_endpoint::INF) {
+            std::get<1>(range) = scan_endpoint::INF;
+        }
+        if (r_end == scan_endpoint::INF) {
+            std::get<3>(range) = scan_endpoint::INF;
+        }
+    }
+
     void push_to_read_set_for_stx(read_set_obj&& elem) {
         // take write lock
         std::lock_guard<std::shared_mutex> lk{mtx_read_set_for_stx_};
diff --git a/src/concurrency_control/interface/helper.cpp b/src/concurrency_control/interface/helper.cpp
index e10881f..0e1244f 100644
--- a/src/concurrency_control/interface/helper.cpp
+++ b/src/concurrency_control/interface/helper.cpp
@@ -72,6 +72,7 @@ Status check_before_write_ops(session* const ti, Storage const st,
             // insert and delete with read
             // may need forwarding
             long_tx::wp_verify_and_forwarding(ti, wm, key);
+            ti->insert_to_ltx_storage_read_set(st, std::string(key));
         }
 
     } else if (ti->get_tx_type() ==
diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index c571fd1..2b3996a 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -271,6 +271,7 @@ static Status open_scan_precheck(
          */
         ti->get_range_read_set_for_ltx().insert(std::make_tuple(
                 rrbp, std::string(l_key), l_end, std::string(r_key), r_end));
+        ti->insert_to_ltx_storage_read_set(storage, l_key, l_end, r_key, r_end);
     } else if (ti->get_tx_type() ==
                transaction_options::transaction_type::SHORT) {
         wp::page_set_meta* psm{};
-- 
2.43.0


From fcb767e8293fa185e0d31aa8f9e931acfe1cfd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:18:28 +0000
Subject: [PATCH 08/31] fix: keep the read range of a long tx covering all it
 has read

A key on both sides of a not yet complete range extended only the left
end, and a right to left scan registered only the left end.
---
 src/concurrency_control/interface/long_tx/helper.cpp | 3 ++-
 src/concurrency_control/interface/scan/open_scan.cpp | 9 ++++++---
 src/concurrency_control/wp.cpp                       | 3 ++-
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/concurrency_control/interface/long_tx/helper.cpp b/src/concurrency_control/interface/long_tx/helper.cpp
index 7eb5ea8..841abb6 100644
--- a/src/concurrency_control/interface/long_tx/helper.cpp
+++ b/src/concurrency_control/interface/long_tx/helper.cpp
@@ -272,7 +272,8 @@ void update_local_read_range(session* ti, wp::wp_meta* wp_meta_ptr,
                 std::get<1>(read_range) = scan_endpoint::INCLUSIVE;
             }
             std::get<0>(read_range) = key;
-        } else if (key > std::get<2>(read_range)) {
+        }
+        if (key > std::get<2>(read_range)) {
             if (std::get<3>(read_range) == scan_endpoint::EXCLUSIVE) {
                 std::get<3>(read_range) = scan_endpoint::INCLUSIVE;
             }
diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index 2b3996a..ae8d239 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -398,7 +398,9 @@ static Status open_scan_body(
     }
 
     // for hit, register left end point info as already read
-    if (ti->get_tx_type() == transaction_options::transaction_type::LONG) {
+    if (right_to_left) {
+        update_local_read_range_if_ltx();
+    } else if (ti->get_tx_type() == transaction_options::transaction_type::LONG) {
         long_tx::update_local_read_range(ti, wp_meta_ptr, l_key, l_end);
     }
 
@@ -529,8 +531,9 @@ static Status open_scan_body_iscan(
     }
 
     // for hit, register left end point info as already read
-    // XXX: broken in reverse scan, currentry reverse scan is used only in RTX
-    if (ti->get_tx_type() == transaction_options::transaction_type::LONG) {
+    if (right_to_left) {
+        update_local_read_range_if_ltx();
+    } else if (ti->get_tx_type() == transaction_options::transaction_type::LONG) {
         long_tx::update_local_read_range(ti, wp_meta_ptr, l_key, l_end);
     }
 
diff --git a/src/concurrency_control/wp.cpp b/src/concurrency_control/wp.cpp
index 37c8c05..fb655b7 100644
--- a/src/concurrency_control/wp.cpp
+++ b/src/concurrency_control/wp.cpp
@@ -47,7 +47,8 @@ void extract_higher_priori_ltx_info(session* const ti,
             // already initialize, update read range
             if (key < std::get<0>(read_range)) {
                 std::get<0>(read_range) = key;
-            } else if (key > std::get<2>(read_range)) {
+            }
+            if (key > std::get<2>(read_range)) {
                 std::get<2>(read_range) = key;
             }
         }
-- 
2.43.0


From ecaf206921d62f5c458cacc7fd9b78a1786ba23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:25:13 +0000
Subject: [PATCH 09/31] fix: register the scanned node also when a short tx
 reads its own write

A scan that met only own writes left nothing to verify, so an insert into
the scanned range went unnoticed at commit.
---
 .../interface/scan/read_kv_from_scan.cpp               | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/concurrency_control/interface/scan/read_kv_from_scan.cpp b/src/concurrency_control/interface/scan/read_kv_from_scan.cpp
index 156fda2..748f1c6 100644
--- a/src/concurrency_control/interface/scan/read_kv_from_scan.cpp
+++ b/src/concurrency_control/interface/scan/read_kv_from_scan.cpp
@@ -95,6 +95,16 @@ static Status read_from_scan(Token token, ScanHandle handle, bool key_read,
     if (ti->get_tx_type() != transaction_options::transaction_type::READ_ONLY) {
         const write_set_obj* inws = ti->get_write_set().search(rec_ptr);
         if (inws != nullptr) {
+            // the own write does not hide phantoms from this scan
+            if (ti->get_tx_type() ==
+                        transaction_options::transaction_type::SHORT &&
+                node_check() == Status::ERR_CC) {
+                std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
+                ti->get_result_info().set_storage_name(st);
+                ti->set_result(reason_code::CC_OCC_PHANTOM_AVOIDANCE);
+                short_tx::abort(ti);
+                return Status::ERR_CC;
+            }
             if (inws->get_op() == OP_TYPE::DELETE) {
                 read_register_if_ltx(rec_ptr);
                 return Status::WARN_NOT_FOUND;
-- 
2.43.0


From e5a75ad3e6e49bf541b719cea0a5e88a3e6b5c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:26:27 +0000
Subject: [PATCH 10/31] fix: register the nodes of the records a short tx scan
 skips

Deleted records are skipped without being read, and the node they are in
was not verified at commit unless another record of it was read.
---
 src/concurrency_control/interface/scan/next.cpp  | 16 +++++++++++++++-
 .../interface/scan/open_scan.cpp                 | 11 +++++++++++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/concurrency_control/interface/scan/next.cpp b/src/concurrency_control/interface/scan/next.cpp
index 66b17ff..39c81ad 100644
--- a/src/concurrency_control/interface/scan/next.cpp
+++ b/src/concurrency_control/interface/scan/next.cpp
@@ -57,7 +57,21 @@ static Status next_body(Token const token, ScanHandle const handle) { // NOLINT
 
         auto rc = next_check_not_found(ti, st, rec_ptr);
         if (rc == Status::OK) { break; }
-        if (rc == Status::INTERNAL_WARN_NOT_FOUND) { continue; }
+        if (rc == Status::INTERNAL_WARN_NOT_FOUND) {
+            // nobody reads the skipped record, so register its node here
+            if (ti->get_tx_type() ==
+                        transaction_options::transaction_type::SHORT &&
+                ti->get_node_set().emplace_back(
+                        {std::get<1>(*itr), std::get<2>(*itr)}) ==
+                        Status::ERR_CC) {
+                std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
+                ti->get_result_info().set_storage_name(st);
+                ti->set_result(reason_code::CC_OCC_PHANTOM_AVOIDANCE);
+                short_tx::abort(ti);
+                return Status::ERR_CC;
+            }
+            continue;
+        }
         return rc;
     }
 
diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index ae8d239..60ee466 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -395,6 +395,17 @@ static Status open_scan_body(
                 if (rc == Status::ERR_CC) { return rc; }
             }
         }
+        // nobody reads the skipped records, so register their nodes here
+        for (std::size_t i = 0; i < head_skip_rec_n; ++i) {
+            rc = ti->get_node_set().emplace_back(nvec.at(i + nvec_delta));
+            if (rc == Status::ERR_CC) {
+                short_tx::abort(ti);
+                std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
+                ti->get_result_info().set_storage_name(storage);
+                ti->set_result(reason_code::CC_OCC_PHANTOM_AVOIDANCE);
+                return Status::ERR_CC;
+            }
+        }
     }
 
     // for hit, register left end point info as already read
-- 
2.43.0


From 0889ab30317b0c43f9a02b5cfc7992223d1ab54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:35:41 +0000
Subject: [PATCH 11/31] fix: show a short tx its own write over a deleted
 record at the head of a scan

---
 src/concurrency_control/interface/scan/open_scan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index 60ee466..914e842 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -68,7 +68,7 @@ static Status fin_process(session* const ti, Status const this_result) {
 }
 
 static Status check_not_found(session* ti, Storage st, Record* rec_ptr) {
-    if (ti->get_tx_type() == transaction_options::transaction_type::LONG) {
+    if (ti->get_tx_type() != transaction_options::transaction_type::READ_ONLY) {
         // check read own write
         write_set_obj* inws = ti->get_write_set().search(rec_ptr);
         if (inws != nullptr && inws->get_op() != OP_TYPE::DELETE) {
-- 
2.43.0


From 2135c123cea0905bfe7608db858395612a761a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:36:01 +0000
Subject: [PATCH 12/31] fix: give a short tx write over a deleted record a tid
 above the deleted version

---
 src/concurrency_control/interface/short_tx/termination.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index aef8fdf..b18614d 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -426,10 +426,9 @@ static Status write_lock(session* ti, tid_word& commit_tid) {
                         return Status::ERR_KVS;
                     }
                 }
-                // check Record version to update
-                if (!rec_ptr->get_tidw_ref().get_absent()) {
-                    commit_tid = std::max(commit_tid, rec_ptr->get_tidw_ref());
-                }
+                // check Record version to update. a deleted version counts too,
+                // otherwise the new version may get the same tid.
+                commit_tid = std::max(commit_tid, rec_ptr->get_tidw_ref());
                 return Status::OK;
             }
             if (rc == Status::ERR_CC) {
-- 
2.43.0


From ba66272b9f2df9090fbe5c502a8463351a931281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:44:05 +0000
Subject: [PATCH 13/31] fix: do not use the erased write set entry when a
 delete cancels an upsert

---
 src/concurrency_control/interface/delete.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/concurrency_control/interface/delete.cpp b/src/concurrency_control/interface/delete.cpp
index b425c0a..17d7d1b 100644
--- a/src/concurrency_control/interface/delete.cpp
+++ b/src/concurrency_control/interface/delete.cpp
@@ -83,7 +83,7 @@ static inline Status process_after_write(session* ti, write_set_obj* wso) {
         if (!rc) {
             // if this was update
             ti->push_to_write_set({st, OP_TYPE::DELETE, rec_ptr}); // NOLINT
-            register_read_if_ltx(ti, wso->get_rec_ptr());
+            register_read_if_ltx(ti, rec_ptr);
         }
         garbage::set_dirty(st);
         return Status::WARN_CANCEL_PREVIOUS_UPSERT;
-- 
2.43.0


From ae9f96517c0376f56d5ca181e6610fb90d0cb173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:50:59 +0000
Subject: [PATCH 14/31] fix: refuse closing an unknown iterator based cursor
 before touching it

---
 src/concurrency_control/include/scan.h                | 5 +++++
 src/concurrency_control/interface/scan/close_scan.cpp | 1 +
 2 files changed, 6 insertions(+)

diff --git a/src/concurrency_control/include/scan.h b/src/concurrency_control/include/scan.h
index ff4cd3d..b896d9e 100644
--- a/src/concurrency_control/include/scan.h
+++ b/src/concurrency_control/include/scan.h
@@ -139,6 +139,11 @@ public:
         return Status::OK;
     }
 
+    bool has_scan_context(scan_context* sc) {
+        std::lock_guard lk{mtx_allocated_}; // for strand
+        return allocated_i_.find(sc) != allocated_i_.end();
+    }
+
     Status delete_scan_context(scan_context* sc) {
         {
             std::lock_guard lk{mtx_allocated_}; // for strand
diff --git a/src/concurrency_control/interface/scan/close_scan.cpp b/src/concurrency_control/interface/scan/close_scan.cpp
index 569ae31..d59dc4a 100644
--- a/src/concurrency_control/interface/scan/close_scan.cpp
+++ b/src/concurrency_control/interface/scan/close_scan.cpp
@@ -29,6 +29,7 @@ static Status close_scan_body_iscan(Token const token, ScanHandle const handle)
     auto* ti = static_cast<session*>(token);
     if (!ti->get_tx_began()) { return Status::WARN_NOT_BEGIN; }
     auto* sc = static_cast<scan_context*>(handle);
+    if (!ti->get_scan_handle().has_scan_context(sc)) { return Status::WARN_INVALID_HANDLE; }
     if (sc->get_ycontext_ref()) { yakushima::iscan_close(sc->get_ycontext_ref()); }
     return ti->get_scan_handle().delete_scan_context(sc);
 }
-- 
2.43.0


From 628d97484cbdd9734a0f734ebff48a4a7bc15a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:01:28 +0000
Subject: [PATCH 15/31] fix: keep a read area empty when its exclusive list
 covers the inclusive one

---
 src/concurrency_control/interface/long_tx/helper.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/concurrency_control/interface/long_tx/helper.cpp b/src/concurrency_control/interface/long_tx/helper.cpp
index 841abb6..4d6d094 100644
--- a/src/concurrency_control/interface/long_tx/helper.cpp
+++ b/src/concurrency_control/interface/long_tx/helper.cpp
@@ -33,7 +33,7 @@ static Status check_read_area_body(session* ti, Storage const st) {
     // it can read from only plist
     // plist is not empty
     auto itr = plist.find(st);
-    if (itr != plist.end()) { // found
+    if (itr != plist.end() && nlist.find(st) == nlist.end()) { // found
         return Status::OK;
     }
     return Status::ERR_READ_AREA_VIOLATION;
@@ -51,6 +51,14 @@ Status check_read_area(session* ti, Storage const st) {
 static void preprocess_read_area(transaction_options::read_area& ra) {
     if (!ra.get_positive_list().empty() && !ra.get_negative_list().empty()) {
         // if you set positive and negative, you can read positive erased by negative
+        auto nset = ra.get_negative_list();
+        auto pall = ra.get_positive_list();
+        if (std::all_of(pall.begin(), pall.end(), [&nset](Storage st) {
+                return nset.count(st) != 0;
+            })) {
+            // nothing remains. an empty positive list would mean everything
+            return;
+        }
         for (auto elem : ra.get_negative_list()) {
             auto pset = ra.get_positive_list();
             for (auto itr = pset.begin(); itr != pset.end(); ++itr) { // NOLINT
-- 
2.43.0


From c48dbdd6449714f612ccc49d1854ee065100f949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:05:18 +0000
Subject: [PATCH 16/31] fix: let a scan of a long tx find long txs committed in
 its start epoch

---
 src/concurrency_control/interface/long_tx/helper.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/concurrency_control/interface/long_tx/helper.cpp b/src/concurrency_control/interface/long_tx/helper.cpp
index 4d6d094..aeac7eb 100644
--- a/src/concurrency_control/interface/long_tx/helper.cpp
+++ b/src/concurrency_control/interface/long_tx/helper.cpp
@@ -250,14 +250,8 @@ void wp_verify_and_forwarding(session* ti, wp::wp_meta* wp_meta_ptr,
 
 void wp_verify_and_forwarding(session* ti, wp::wp_meta* wp_meta_ptr) {
     auto wps = wp_meta_ptr->get_wped();
-    if (!wp::wp_meta::empty(wps)) {
-        // exist wp
-        auto ep_id{wp::wp_meta::find_min_ep_id(wps)};
-        if (ep_id.second < ti->get_long_tx_id()) {
-            // the wp is higher priority long tx than this.
-            wp::extract_higher_priori_ltx_info(ti, wp_meta_ptr, wps);
-        }
-    }
+    // even without living wp, a wp committed at my start epoch may matter
+    wp::extract_higher_priori_ltx_info(ti, wp_meta_ptr, wps);
 }
 
 void update_local_read_range(session* ti, wp::wp_meta* wp_meta_ptr,
-- 
2.43.0


From 9083cec1eef5d1833bd5e6754049ebe76a8eb351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:09:59 +0000
Subject: [PATCH 17/31] fix: keep the callback of a pending commit when commit
 is asked again

---
 src/concurrency_control/interface/termination.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/concurrency_control/interface/termination.cpp b/src/concurrency_control/interface/termination.cpp
index 8681ae0..2bf3a43 100644
--- a/src/concurrency_control/interface/termination.cpp
+++ b/src/concurrency_control/interface/termination.cpp
@@ -69,6 +69,12 @@ static Status commit_body(Token const token,                    // NOLINT
         return Status::WARN_NOT_BEGIN;
     }
 
+    if (ti->get_tx_type() == transaction_options::transaction_type::LONG &&
+        ti->get_requested_commit() && !callback) {
+        // the callback of the pending request must not be lost
+        return Status::WARN_WAITING_FOR_OTHER_TX;
+    }
+
     // log callback
     ti->set_commit_callback(std::move(callback)); // NOLINT
 
-- 
2.43.0


From 002f3f8f613822580891c012be1794054648059c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:10:18 +0000
Subject: [PATCH 18/31] fix: do not read from a storage a read only tx does not
 find

---
 src/concurrency_control/interface/read_only_tx/search.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/concurrency_control/interface/read_only_tx/search.cpp b/src/concurrency_control/interface/read_only_tx/search.cpp
index 95e93f8..be8ab7f 100644
--- a/src/concurrency_control/interface/read_only_tx/search.cpp
+++ b/src/concurrency_control/interface/read_only_tx/search.cpp
@@ -18,8 +18,8 @@ Status search_key(session* const ti, Storage const storage,
 
     // index access
     Record* rec_ptr{};
-    if (Status::WARN_NOT_FOUND == get<Record>(storage, key, rec_ptr)) {
-        return Status::WARN_NOT_FOUND;
+    if (auto rc = get<Record>(storage, key, rec_ptr); rc != Status::OK) {
+        return rc;
     }
 
     return long_tx::version_traverse_and_read(ti, rec_ptr, value, read_value);
-- 
2.43.0


From 55e476c0f85d92c9f17286323eb2f69653c511c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:16:02 +0000
Subject: [PATCH 19/31] fix: report a long tx aborted before its epoch as
 aborted

---
 src/concurrency_control/transaction_state.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/concurrency_control/transaction_state.cpp b/src/concurrency_control/transaction_state.cpp
index f4097cb..798db52 100644
--- a/src/concurrency_control/transaction_state.cpp
+++ b/src/concurrency_control/transaction_state.cpp
@@ -138,7 +138,8 @@ static Status check_tx_state_body(TxStateHandle handle, TxState& out) {
             return Status::ERR_FATAL;
 #endif
         }
-    } else {
+    } else if (ts.state_kind() == TxState::StateKind::WAITING_START ||
+               ts.state_kind() == TxState::StateKind::STARTED) {
         ts.set_kind(TxState::StateKind::WAITING_START);  // for internal
         out.set_kind(TxState::StateKind::WAITING_START); // for external
     }
-- 
2.43.0


From 9ee2607340bd1ca2dce3e13f757fd34ea7025af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:22:30 +0000
Subject: [PATCH 20/31] fix: keep the newest sequence version newest when a
 long tx commits it late

---
 src/concurrency_control/sequence.cpp | 10 +++-------
 src/concurrency_control/session.cpp  |  7 +++----
 src/include/sequence.h               |  7 ++++++-
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/concurrency_control/sequence.cpp b/src/concurrency_control/sequence.cpp
index ab3bc82..7592248 100644
--- a/src/concurrency_control/sequence.cpp
+++ b/src/concurrency_control/sequence.cpp
@@ -187,7 +187,7 @@ sequence::sequence_map_find(SequenceId const id,
 }
 
 // for update sequence function
-Status sequence::sequence_map_find_and_verify(epoch::epoch_t epoch,
+Status sequence::sequence_map_find_and_verify(epoch::epoch_t& epoch,
                                               SequenceId const id,
                                               SequenceVersion const version) {
     // check the sequence object whose id is the arguments of this function.
@@ -208,12 +208,8 @@ Status sequence::sequence_map_find_and_verify(epoch::epoch_t epoch,
     }
 
     if (std::get<0>(last_itr->second) < version) {
-        if (last_itr->first > epoch) {
-            // fix sequence map
-            auto erased_itr = found_id_itr->second.end();
-            erased_itr--;
-            found_id_itr->second.erase(erased_itr);
-        }
+        // the newer version must not be ordered before older ones
+        epoch = std::max(epoch, last_itr->first);
         return Status::OK;
     }
     return Status::WARN_ILLEGAL_OPERATION;
diff --git a/src/concurrency_control/session.cpp b/src/concurrency_control/session.cpp
index dba69d4..9f522f9 100644
--- a/src/concurrency_control/session.cpp
+++ b/src/concurrency_control/session.cpp
@@ -58,8 +58,8 @@ void session::commit_sequence(tid_word ctid) {
         SequenceVersion version = std::get<0>(itr->second);
         SequenceValue value = std::get<1>(itr->second);
         // check update sequence object
-        auto ret = sequence::sequence_map_find_and_verify(ctid.get_epoch(), id,
-                                                          version);
+        epoch::epoch_t epoch = ctid.get_epoch();
+        auto ret = sequence::sequence_map_find_and_verify(epoch, id, version);
         if (ret == Status::WARN_ILLEGAL_OPERATION ||
             ret == Status::WARN_NOT_FOUND) {
             // fail
@@ -87,12 +87,11 @@ void session::commit_sequence(tid_word ctid) {
         log_operation lo{log_operation::UPSERT};
         // log to local to reduce contention for locks
         log_recs.emplace_back(shirakami::lpwal::log_record(
-                lo, lpwal::write_version_type(ctid.get_epoch(), version),
+                lo, lpwal::write_version_type(epoch, version),
                 storage::sequence_storage, key, new_value, {}));
 #endif
 
         // update sequence object
-        auto epoch = ctid.get_epoch();
         ret = sequence::sequence_map_update(id, epoch, version, value);
         if (ret != Status::OK) {
             LOG_FIRST_N(ERROR, 1) << log_location_prefix << "unreachable path";
diff --git a/src/include/sequence.h b/src/include/sequence.h
index 196a260..9214fd7 100644
--- a/src/include/sequence.h
+++ b/src/include/sequence.h
@@ -55,7 +55,12 @@ public:
     sequence_map_find(SequenceId id,
                       std::tuple<SequenceVersion, SequenceValue>& out);
 
-    static Status sequence_map_find_and_verify(epoch::epoch_t epoch,
+    /**
+     * @brief verify that @a version is newer than the latest one.
+     * @param[in,out] epoch the epoch of the update. It is raised to the epoch
+     * of the latest version if that is larger.
+     */
+    static Status sequence_map_find_and_verify(epoch::epoch_t& epoch,
                                                SequenceId id,
                                                SequenceVersion version);
 
-- 
2.43.0


From def5f4641655d30d2fd1f9fa03f76eaad497cac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:24:41 +0000
Subject: [PATCH 21/31] fix: guard the sequence map while several threads
 restore the index

---
 src/datastore/limestone/datastore.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/datastore/limestone/datastore.cpp b/src/datastore/limestone/datastore.cpp
index 8e6b7c4..af30898 100644
--- a/src/datastore/limestone/datastore.cpp
+++ b/src/datastore/limestone/datastore.cpp
@@ -170,6 +170,7 @@ static auto recovery_from_cursor(std::unique_ptr<limestone::api::cursor> cursor)
             SequenceValue value{};
             memcpy(&value, val.data() + sizeof(version), // NOLINT
                    sizeof(version));
+            std::lock_guard<std::shared_mutex> lk{sequence::sequence_map_smtx()};
             auto ret = sequence::sequence_map_push(id, 0, version, value);
             if (ret != Status::OK) {
                 LOG(FATAL) << log_location_prefix << "library programming error.";
-- 
2.43.0


From f258b10959525d4cff4249e198f25413c4f55b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:24:41 +0000
Subject: [PATCH 22/31] fix: accept a storage registered by another restoring
 thread

---
 src/datastore/limestone/datastore.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/datastore/limestone/datastore.cpp b/src/datastore/limestone/datastore.cpp
index af30898..a312be5 100644
--- a/src/datastore/limestone/datastore.cpp
+++ b/src/datastore/limestone/datastore.cpp
@@ -140,11 +140,12 @@ static auto recovery_from_cursor(std::unique_ptr<limestone::api::cursor> cursor)
                 // not exist, so create.
                 auto ret = shirakami::storage::register_storage(st2,
                                                                 {id, payload});
-                if (ret != Status::OK) {
+                if (ret != Status::OK && ret != Status::WARN_ALREADY_EXISTS) {
                     /**
                      * This process was done because
                      * shirakami::storage::exist_storage(st2) said not exist,
-                     * but it can't register_storage.
+                     * but it can't register_storage. (Other threads may have
+                     * registered it in the meantime for a normal entry.)
                      */
                     LOG(FATAL) << log_location_prefix << "library programming error.";
                 }
-- 
2.43.0


From a72e25e7afdc6f82c5e317dc2c98312dd18f1d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:31:01 +0000
Subject: [PATCH 23/31] fix: withdraw the record created by an insert that
 fails its own scan check

---
 src/concurrency_control/interface/insert.cpp | 2 ++
 src/concurrency_control/interface/upsert.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/concurrency_control/interface/insert.cpp b/src/concurrency_control/interface/insert.cpp
index 9424f98..0a80b5f 100644
--- a/src/concurrency_control/interface/insert.cpp
+++ b/src/concurrency_control/interface/insert.cpp
@@ -54,7 +54,9 @@ static inline Status insert_process(session* const ti, Storage st,
                  * This This transaction is confirmed to be aborted
                  * because the previous scan was destroyed by an insert
                  * by another transaction.
+                 * The abort must withdraw the record just created.
                  */
+                ti->push_to_write_set({st, OP_TYPE::INSERT, rec_ptr, val, true, std::move(lobs)});
                 abort_insert(ti);
                 std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
                 ti->get_result_info().set_reason_code(
diff --git a/src/concurrency_control/interface/upsert.cpp b/src/concurrency_control/interface/upsert.cpp
index ca86e04..0eaf5fd 100644
--- a/src/concurrency_control/interface/upsert.cpp
+++ b/src/concurrency_control/interface/upsert.cpp
@@ -55,7 +55,9 @@ static inline Status insert_process(session* const ti, Storage st,
                  * This This transaction is confirmed to be aborted
                  * because the previous scan was destroyed by an insert
                  * by another transaction.
+                 * The abort must withdraw the record just created.
                  */
+                ti->push_to_write_set({st, OP_TYPE::UPSERT, rec_ptr, val, true, std::move(lobs)});
                 abort_update(ti);
                 std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
                 ti->get_result_info().set_reason_code(
-- 
2.43.0


From 7769aa1ce84299e64db0cce69c59a8f52059643b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:32:30 +0000
Subject: [PATCH 24/31] fix: forget running long and read only transactions at
 shutdown

---
 src/concurrency_control/interface/shut_down.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/concurrency_control/interface/shut_down.cpp b/src/concurrency_control/interface/shut_down.cpp
index 7b95edf..7c7b19e 100644
--- a/src/concurrency_control/interface/shut_down.cpp
+++ b/src/concurrency_control/interface/shut_down.cpp
@@ -2,6 +2,8 @@
 
 #include <cstdlib>
 #include <cstring>
+#include <mutex>
+#include <shared_mutex>
 #include <string_view>
 
 #include "atomic_wrapper.h"
@@ -12,6 +14,7 @@
 
 #include "concurrency_control/bg_work/include/bg_commit.h"
 #include "concurrency_control/include/epoch_internal.h"
+#include "concurrency_control/include/ongoing_tx.h"
 #include "concurrency_control/include/read_plan.h"
 #include "concurrency_control/include/session.h"
 #include "concurrency_control/include/wp.h"
@@ -139,6 +142,12 @@ static void fin_body([[maybe_unused]] bool force_shut_down_logging) try {
     // about read area
     read_plan::fin();
 
+    // forget the long and read only transactions which were still running
+    {
+        std::lock_guard<std::shared_mutex> lk{ongoing_tx::get_mtx()};
+        ongoing_tx::get_tx_info().clear();
+    }
+
     // set flag
     set_is_shutdowning(false);
 
-- 
2.43.0


From 3894fec697121f6f0eb6539b5062b625e76939de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:33:00 +0000
Subject: [PATCH 25/31] fix: do not log a commit in a log session of an older
 epoch

---
 src/concurrency_control/include/lpwal.h                   | 8 ++++++++
 src/concurrency_control/interface/long_tx/termination.cpp | 1 +
 .../interface/short_tx/termination.cpp                    | 1 +
 src/datastore/limestone/lpwal.cpp                         | 6 ++++++
 4 files changed, 16 insertions(+)

diff --git a/src/concurrency_control/include/lpwal.h b/src/concurrency_control/include/lpwal.h
index 067eae5..3142bce 100644
--- a/src/concurrency_control/include/lpwal.h
+++ b/src/concurrency_control/include/lpwal.h
@@ -222,6 +222,14 @@ public:
      */
     void end_session();
 
+    /**
+     * @brief end the session and flush its logs if it was begun in an older
+     * epoch, so that logs pushed from now don't become durable earlier than
+     * logs of this epoch.
+     * @pre take mtx of logs
+     */
+    void end_old_session();
+
 private:
     /**
      * @brief worker thread number used for logging callback.
diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index b72d7a9..cf10710 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -305,6 +305,7 @@ static inline void expose_local_write(
     {
 #ifdef PWAL
         std::unique_lock<std::mutex> lk0{ti->get_lpwal_handle().get_mtx_logs()};
+        ti->get_lpwal_handle().end_old_session();
 #endif
         std::shared_lock<std::shared_mutex> lk{ti->get_write_set().get_mtx()};
         for (auto&& wso : ti->get_write_set().get_ref_cont_for_bt()) {
diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index b18614d..020bf71 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -656,6 +656,7 @@ static Status write_phase(session* ti, epoch::epoch_t ce) {
     {
 #ifdef PWAL
         std::unique_lock<std::mutex> lk0{ti->get_lpwal_handle().get_mtx_logs()};
+        ti->get_lpwal_handle().end_old_session();
 #endif
         std::shared_lock<std::shared_mutex> lk{ti->get_write_set().get_mtx()};
         if (ti->get_write_set().get_for_batch()) {
diff --git a/src/datastore/limestone/lpwal.cpp b/src/datastore/limestone/lpwal.cpp
index 22d5a74..2058e1d 100644
--- a/src/datastore/limestone/lpwal.cpp
+++ b/src/datastore/limestone/lpwal.cpp
@@ -152,6 +152,12 @@ static void flush_log_and_end_session_if_exists(lpwal::handler& handle) {
     }
 }
 
+void handler::end_old_session() {
+    if (begun_session_ && durable_epoch_ != epoch::get_global_epoch()) {
+        flush_log_and_end_session_if_exists(*this);
+    }
+}
+
 void flush_log(Token token) {
     auto* ti = static_cast<session*>(token);
     auto& handle = ti->get_lpwal_handle();
-- 
2.43.0


From d53382757dd427af107f0e11627c379a37990139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:15:57 +0000
Subject: [PATCH 26/31] fix: count a deleted record a long transaction's scan
 skips as a read of its version

A scan of a long transaction passed over a deleted record without
registering the epoch of the deletion as a version it has read.  The
transaction could later be ordered before the deletion it had observed,
which makes the history not serializable.
---
 .../interface/scan/next.cpp                   |  3 +++
 .../interface/scan/open_scan.cpp              | 24 ++++++++++++++++---
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/concurrency_control/interface/scan/next.cpp b/src/concurrency_control/interface/scan/next.cpp
index 39c81ad..cb528b3 100644
--- a/src/concurrency_control/interface/scan/next.cpp
+++ b/src/concurrency_control/interface/scan/next.cpp
@@ -238,6 +238,9 @@ static Status next_check_not_found(session* ti, Storage st, Record* rec_ptr) {
                     // there is a readable rec
                     return Status::OK;
                 }
+            } else if (ti->get_tx_type() == transaction_options::transaction_type::LONG) {
+                // skipping the deleted version is also a read of that version
+                ti->set_read_version_max_epoch_if_need(tid.get_epoch());
             }
         }
     }
diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index 914e842..899b1ad 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -68,6 +68,13 @@ static Status fin_process(session* const ti, Status const this_result) {
 }
 
 static Status check_not_found(session* ti, Storage st, Record* rec_ptr) {
+    // skipping an absent version is also a read of that version
+    auto register_skipped_version = [ti](tid_word const& ver_tid) {
+        if (ti->get_tx_type() == transaction_options::transaction_type::LONG &&
+            ver_tid.get_epoch() < ti->get_valid_epoch()) {
+            ti->set_read_version_max_epoch_if_need(ver_tid.get_epoch());
+        }
+    };
     if (ti->get_tx_type() != transaction_options::transaction_type::READ_ONLY) {
         // check read own write
         write_set_obj* inws = ti->get_write_set().search(rec_ptr);
@@ -92,7 +99,10 @@ static Status check_not_found(session* ti, Storage st, Record* rec_ptr) {
                 ver = ver->get_next();
                 if (ver == nullptr) { break; }
                 if (ver->get_tid().get_epoch() < ti->get_valid_epoch()) {
-                    if (ver->get_tid().get_absent()) { break; }
+                    if (ver->get_tid().get_absent()) {
+                        register_skipped_version(ver->get_tid());
+                        break;
+                    }
                     return Status::OK;
                 }
             }
@@ -119,12 +129,16 @@ static Status check_not_found(session* ti, Storage st, Record* rec_ptr) {
         /**
          * first version must be inserting page or deleted page
          */
+        register_skipped_version(tid);
         version* ver = rec_ptr->get_latest();
         for (;;) {
             ver = ver->get_next();
             if (ver == nullptr) { break; }
             if (ver->get_tid().get_epoch() < ti->get_valid_epoch()) {
-                if (ver->get_tid().get_absent()) { break; }
+                if (ver->get_tid().get_absent()) {
+                    register_skipped_version(ver->get_tid());
+                    break;
+                }
                 return Status::OK;
             }
         }
@@ -138,6 +152,7 @@ static Status check_not_found(session* ti, Storage st, Record* rec_ptr) {
         }
         if (ti->get_tx_type() == transaction_options::transaction_type::LONG ||
             ti->get_tx_type() == transaction_options::transaction_type::READ_ONLY) {
+            register_skipped_version(tid);
             if (tid.get_epoch() >= ti->get_valid_epoch()) {
                 // there may be readable rec
                 version* ver = rec_ptr->get_latest();
@@ -146,7 +161,10 @@ static Status check_not_found(session* ti, Storage st, Record* rec_ptr) {
                     if (ver == nullptr) { break; }
                     if (ver->get_tid().get_epoch() <
                         ti->get_valid_epoch()) {
-                        if (ver->get_tid().get_absent()) { break; }
+                        if (ver->get_tid().get_absent()) {
+                            register_skipped_version(ver->get_tid());
+                            break;
+                        }
                         return Status::OK;
                     }
                 }
-- 
2.43.0


From cf2f209fad550ff2c76dfef3ae02132d6c37d0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:45:31 +0000
Subject: [PATCH 27/31] fix: make the writing calls of one transaction exclude
 each other

Several threads may use one transaction at once (docs/strand.md).  Two of
them writing the same key could enter it into the write set twice, after
which the commit waited for its own lock for ever.  insert, update, upsert
and delete now hold the session's lock exclusively.
---
 src/concurrency_control/interface/delete.cpp | 2 +-
 src/concurrency_control/interface/insert.cpp | 2 +-
 src/concurrency_control/interface/update.cpp | 2 +-
 src/concurrency_control/interface/upsert.cpp | 7 ++++++-
 4 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/concurrency_control/interface/delete.cpp b/src/concurrency_control/interface/delete.cpp
index 17d7d1b..5cdd780 100644
--- a/src/concurrency_control/interface/delete.cpp
+++ b/src/concurrency_control/interface/delete.cpp
@@ -185,7 +185,7 @@ Status delete_record(Token token, Storage storage, const std::string_view key) {
     ti->process_before_start_step();
     Status ret{};
     { // for strand
-        std::shared_lock<std::shared_mutex> lock{ti->get_mtx_state_da_term()};
+        std::unique_lock<std::shared_mutex> lock{ti->get_mtx_state_da_term()};
 
         // delete record body check warn not begin for strand
         ret = delete_record_body(token, storage, key);
diff --git a/src/concurrency_control/interface/insert.cpp b/src/concurrency_control/interface/insert.cpp
index 0a80b5f..441e238 100644
--- a/src/concurrency_control/interface/insert.cpp
+++ b/src/concurrency_control/interface/insert.cpp
@@ -189,7 +189,7 @@ Status insert(Token const token, Storage const storage, // NOLINT
     ti->process_before_start_step();
     Status ret{};
     { // for strand
-        std::shared_lock<std::shared_mutex> lock{ti->get_mtx_state_da_term()};
+        std::unique_lock<std::shared_mutex> lock{ti->get_mtx_state_da_term()};
 
         // insert_body check warn not begin
         ret = insert_body(token, storage, key, val, blobs_data, blobs_size);
diff --git a/src/concurrency_control/interface/update.cpp b/src/concurrency_control/interface/update.cpp
index abfc427..027936d 100644
--- a/src/concurrency_control/interface/update.cpp
+++ b/src/concurrency_control/interface/update.cpp
@@ -124,7 +124,7 @@ Status update(Token token, Storage storage,
     ti->process_before_start_step();
     Status ret{};
     { // for strand
-        std::shared_lock<std::shared_mutex> lock{ti->get_mtx_state_da_term()};
+        std::unique_lock<std::shared_mutex> lock{ti->get_mtx_state_da_term()};
 
         // update_body check termation by concurrent strand
         ret = update_body(token, storage, key, val, blobs_data, blobs_size);
diff --git a/src/concurrency_control/interface/upsert.cpp b/src/concurrency_control/interface/upsert.cpp
index 0eaf5fd..2ecb01f 100644
--- a/src/concurrency_control/interface/upsert.cpp
+++ b/src/concurrency_control/interface/upsert.cpp
@@ -161,7 +161,12 @@ Status upsert(Token token, Storage storage, std::string_view const key,
                         << " " << span_printer(blobs_data, blobs_size);
     auto* ti = static_cast<session*>(token);
     ti->process_before_start_step();
-    auto ret = upsert_body(token, storage, key, val, blobs_data, blobs_size);
+    Status ret{};
+    { // for strand
+        std::unique_lock<std::shared_mutex> lock{ti->get_mtx_state_da_term()};
+
+        ret = upsert_body(token, storage, key, val, blobs_data, blobs_size);
+    }
     ti->process_before_finish_step();
     shirakami_log_exit << "upsert, Status: " << ret;
     return ret;
-- 
2.43.0


From 5bf8cb04a37316a5cdb28fb53be268aa1d2f8951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:47:43 +0000
Subject: [PATCH 28/31] fix: log what a long tx writes under a newer version

The newer version may become durable later than the long transaction. After a
crash in between, the long transaction was there without that write.
---
 .../interface/long_tx/termination.cpp                 | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index cf10710..f760447 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -194,8 +194,9 @@ static inline void expose_local_write(
                         wso.get_value(vb);
                         rec_ptr->get_latest()->set_value(vb);
                     } else {
-                        // invisible write
-                        should_log = false;
+                        // invisible write. the short tx that wrote over it
+                        // may become durable later than this tx
+                        should_log = pre_tid.get_by_short();
                         // keep tx id and by_short bit for successor invisible write
 
                         ctid.set_tid(pre_tid.get_tid());
@@ -218,7 +219,7 @@ static inline void expose_local_write(
                         version* new_v{new version(ctid, vb, ver)}; // NOLINT
                         pre_ver->set_next(new_v);
                     };
-                    should_log = false;
+                    // what was written over it may become durable later
                     version* pre_ver{rec_ptr->get_latest()};
                     version* ver{rec_ptr->get_latest()->get_next()};
                     for (;;) {
@@ -244,8 +245,10 @@ static inline void expose_local_write(
                                 // set value
                                 ver->set_value(vb);
                                 ver->set_tid(ctid);
+                            } else {
+                                // omit due to forwarding
+                                should_log = tid.get_by_short();
                             }
-                            // else: omit due to forwarding
                             break;
                         }
                         pre_ver = ver;
-- 
2.43.0


From 808b60a5a5bcef8ebb5ec6d27bee27dc16ba6280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:47:43 +0000
Subject: [PATCH 29/31] fix: begin the log session before the writes are
 exposed

A transaction that read the write could become durable in an earlier epoch
than the write itself, and survive a crash without it.
---
 src/concurrency_control/include/lpwal.h       | 19 ++++++++++++++++++-
 .../interface/long_tx/termination.cpp         |  6 ++++++
 .../interface/short_tx/termination.cpp        |  3 +++
 3 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/concurrency_control/include/lpwal.h b/src/concurrency_control/include/lpwal.h
index 3142bce..7164746 100644
--- a/src/concurrency_control/include/lpwal.h
+++ b/src/concurrency_control/include/lpwal.h
@@ -188,7 +188,7 @@ public:
     void push_log(log_record const& log) {
         if (logs_.empty()) {
             set_min_log_epoch(log.get_wv().get_major_write_version());
-            begin_session();
+            begin_session_if_not();
         }
         logs_.emplace_back(log);
     }
@@ -217,11 +217,28 @@ public:
      */
     void begin_session();
 
+    /**
+     * @brief begin a session before the first write it will log is exposed, so
+     * that readers of the write don't become durable earlier than the write.
+     * @pre take mtx of logs
+     */
+    void begin_session_if_not() {
+        if (!begun_session_) { begin_session(); }
+    }
+
     /**
      * @pre take mtx of logs
      */
     void end_session();
 
+    /**
+     * @brief end the session if nothing was logged in it.
+     * @pre take mtx of logs
+     */
+    void end_session_if_empty() {
+        if (begun_session_ && logs_.empty()) { end_session(); }
+    }
+
     /**
      * @brief end the session and flush its logs if it was begun in an older
      * epoch, so that logs pushed from now don't become durable earlier than
diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index f760447..4d7e1b0 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -108,6 +108,9 @@ static inline void expose_local_write(
         auto&& wso = std::get<1>(wse);
         dirty.insert(wso.get_storage());
         [[maybe_unused]] bool should_log{true};
+#ifdef PWAL
+        ti->get_lpwal_handle().begin_session_if_not();
+#endif
         // bw can backward including occ bw
         switch (wso.get_op()) {
             case OP_TYPE::UPSERT:
@@ -333,6 +336,9 @@ static inline void expose_local_write(
             }
             process(wso, ctid);
         }
+#ifdef PWAL
+        ti->get_lpwal_handle().end_session_if_empty();
+#endif
     }
     garbage::set_dirty(dirty);
 }
diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index 020bf71..dce1490 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -502,6 +502,9 @@ static Status write_phase(session* ti, epoch::epoch_t ce) {
                         << "\", value: \""
                         << binary_printer(wso_ptr->get_value_view()) << "\"";
         dirty.insert(wso_ptr->get_storage());
+#ifdef PWAL
+        ti->get_lpwal_handle().begin_session_if_not();
+#endif
         switch (wso_ptr->get_op()) {
             case OP_TYPE::UPSERT:
             case OP_TYPE::INSERT: {
-- 
2.43.0


From 4932d71e77cb9383648897c59c5f7047e3d23bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:47:43 +0000
Subject: [PATCH 30/31] fix: log the sequences of a commit in the log session
 of its writes

The background flush could end the log session between the two, and a crash
could leave the writes of a transaction without its sequence updates.
---
 src/concurrency_control/include/session.h            |  1 +
 .../interface/long_tx/termination.cpp                | 12 +++++++++++-
 .../interface/short_tx/termination.cpp               | 12 +++++++++++-
 src/concurrency_control/session.cpp                  |  2 --
 4 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/concurrency_control/include/session.h b/src/concurrency_control/include/session.h
index 68ef74b..9a6f115 100644
--- a/src/concurrency_control/include/session.h
+++ b/src/concurrency_control/include/session.h
@@ -170,6 +170,7 @@ public:
 
     /**
      * @brief commit process for sequence.
+     * @pre take mtx of logs
      */
     void commit_sequence(tid_word ctid);
 
diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index 4d7e1b0..46fdbe7 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -90,6 +90,9 @@ static inline void compute_tid(session* ti, tid_word& ctid) {
     ctid.set_by_short(false);
 }
 
+/**
+ * @pre take mtx of logs
+ */
 static inline void expose_local_write(
         session* ti, tid_word& committed_id,
         std::map<Storage, std::tuple<std::string, std::string>>& write_range) {
@@ -310,7 +313,6 @@ static inline void expose_local_write(
 
     {
 #ifdef PWAL
-        std::unique_lock<std::mutex> lk0{ti->get_lpwal_handle().get_mtx_logs()};
         ti->get_lpwal_handle().end_old_session();
 #endif
         std::shared_lock<std::shared_mutex> lk{ti->get_write_set().get_mtx()};
@@ -811,6 +813,11 @@ extern Status commit(session* const ti) {
          * So it needs boolean.
          */
         std::map<Storage, std::tuple<std::string, std::string>> write_range;
+#if defined(PWAL)
+        // keep the log session until the sequences are logged, too
+        std::unique_lock<std::mutex> lk_logs{
+                ti->get_lpwal_handle().get_mtx_logs()};
+#endif
         expose_local_write(ti, ctid, write_range);
 
         // log debug timing event
@@ -821,6 +828,9 @@ extern Status commit(session* const ti) {
         // sequence process
         // This must be after cc commit and before log process
         ti->commit_sequence(ctid);
+#if defined(PWAL)
+        lk_logs.unlock();
+#endif
 
         // todo enhancement
         /**
diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index dce1490..fa9d729 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -493,6 +493,9 @@ static Status write_lock(session* ti, tid_word& commit_tid) {
     return Status::OK;
 }
 
+/**
+ * @pre take mtx of logs
+ */
 static Status write_phase(session* ti, epoch::epoch_t ce) {
     std::unordered_set<Storage> dirty{};
     auto process = [ti, ce, &dirty](write_set_obj* wso_ptr) {
@@ -658,7 +661,6 @@ static Status write_phase(session* ti, epoch::epoch_t ce) {
 
     {
 #ifdef PWAL
-        std::unique_lock<std::mutex> lk0{ti->get_lpwal_handle().get_mtx_logs()};
         ti->get_lpwal_handle().end_old_session();
 #endif
         std::shared_lock<std::shared_mutex> lk{ti->get_write_set().get_mtx()};
@@ -791,6 +793,11 @@ extern Status commit(session* const ti) {
 
     compute_commit_tid(ti, ce, commit_tid);
 
+#if defined(PWAL)
+    // keep the log session until the sequences are logged, too
+    std::unique_lock<std::mutex> lk_logs{ti->get_lpwal_handle().get_mtx_logs()};
+#endif
+
     // write phase
     rc = write_phase(ti, ce);
     if (rc != Status::OK) {
@@ -807,6 +814,9 @@ extern Status commit(session* const ti) {
     // sequence process
     // This must be after cc commit and before log process
     ti->commit_sequence(ti->get_mrc_tid());
+#if defined(PWAL)
+    lk_logs.unlock();
+#endif
     ti->unlock_short_expose_ongoing_and_refresh_epoch();
 
     auto this_dm = epoch::get_global_epoch();
diff --git a/src/concurrency_control/session.cpp b/src/concurrency_control/session.cpp
index 9f522f9..8981e7e 100644
--- a/src/concurrency_control/session.cpp
+++ b/src/concurrency_control/session.cpp
@@ -102,8 +102,6 @@ void session::commit_sequence(tid_word ctid) {
 
 #ifdef PWAL
     // push log to pwal buffer
-    std::unique_lock<std::mutex> lk_for_pwal_buf{
-            get_lpwal_handle().get_mtx_logs()};
     for (auto& elem : log_recs) { get_lpwal_handle().push_log(elem); }
 #endif
 }
-- 
2.43.0


From 9209ac4d563f2381cb8f309612837a7514571a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:10:37 +0000
Subject: [PATCH 31/31] fix: verify the write preserves before the reads

A long transaction exposes its writes and then removes its write
preserve. A short transaction that first compared the versions it had
read and then looked for write preserves could miss both and commit
with a stale read.
---
 .../interface/short_tx/termination.cpp        | 63 ++++++++++---------
 1 file changed, 34 insertions(+), 29 deletions(-)

diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index fa9d729..6679f49 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -233,37 +233,10 @@ static Status wp_verify(Storage const st, epoch::epoch_t const commit_epoch) {
 
 static Status read_wp_verify(session* const ti, epoch::epoch_t ce,
                              tid_word& commit_tid) {
-    tid_word check{};
     std::vector<Storage> accessed_st{};
-    // read verify
+    // log accessed storage
     for (auto&& itr : ti->get_read_set_for_stx()) {
-        auto* rec_ptr = itr.get_rec_ptr();
-        check.get_obj() = loadAcquire(rec_ptr->get_tidw_ref().get_obj());
-
-        while (check.get_lock_by_gc()) {
-            // gc takes locks equal or less than one lock.
-            _mm_pause();
-            check.get_obj() = loadAcquire(rec_ptr->get_tidw_ref().get_obj());
-        }
-
-        // verify
-        // ==============================
-        if (read_verify(ti, itr.get_tid(), check, rec_ptr, itr.get_storage()) != Status::OK) {
-            unlock_write_set(ti);
-            std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
-            ti->get_result_info().set_key_storage_name(rec_ptr->get_key_view(),
-                                                       itr.get_storage());
-            ti->set_result(reason_code::CC_OCC_READ_VERIFY);
-            short_tx::abort(ti);
-            return Status::ERR_CC;
-        }
-        // ==============================
-
-        // log accessed storage
         accessed_st.emplace_back(itr.get_storage());
-
-        // compute timestamp
-        commit_tid = std::max(check, commit_tid);
     }
 
     // insert, update and delete observe whether the record exists
@@ -294,7 +267,10 @@ static Status read_wp_verify(session* const ti, epoch::epoch_t ce,
         }
     }
 
-    // wp verify
+    /**
+     * wp verify. It must be before read verify: a ltx exposes its writes and
+     * then removes its wp.
+     */
     // reduce redundat
     std::sort(accessed_st.begin(), accessed_st.end());
     accessed_st.erase(std::unique(accessed_st.begin(), accessed_st.end()),
@@ -308,6 +284,35 @@ static Status read_wp_verify(session* const ti, epoch::epoch_t ce,
         }
     }
 
+    tid_word check{};
+    // read verify
+    for (auto&& itr : ti->get_read_set_for_stx()) {
+        auto* rec_ptr = itr.get_rec_ptr();
+        check.get_obj() = loadAcquire(rec_ptr->get_tidw_ref().get_obj());
+
+        while (check.get_lock_by_gc()) {
+            // gc takes locks equal or less than one lock.
+            _mm_pause();
+            check.get_obj() = loadAcquire(rec_ptr->get_tidw_ref().get_obj());
+        }
+
+        // verify
+        // ==============================
+        if (read_verify(ti, itr.get_tid(), check, rec_ptr, itr.get_storage()) != Status::OK) {
+            unlock_write_set(ti);
+            std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
+            ti->get_result_info().set_key_storage_name(rec_ptr->get_key_view(),
+                                                       itr.get_storage());
+            ti->set_result(reason_code::CC_OCC_READ_VERIFY);
+            short_tx::abort(ti);
+            return Status::ERR_CC;
+        }
+        // ==============================
+
+        // compute timestamp
+        commit_tid = std::max(check, commit_tid);
+    }
+
     return Status::OK;
 }
 
-- 
2.43.0

