From 466032cea17e3559008b3cb237f6dfaee02dd3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 01/70] fix: size the PUT queues by datastore after a
 background PUT

The background thread replaced the queue array with one entry per range
server, but queues are indexed by datastore id, so with several datastores
per range server later PUTs were queued out of bounds.
---
 src/hxhim/init.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hxhim/init.cpp b/src/hxhim/init.cpp
index 614f0a9..66bc1e2 100644
--- a/src/hxhim/init.cpp
+++ b/src/hxhim/init.cpp
@@ -249,7 +249,7 @@ static void async_put_thread(hxhim_t *hx) {
 
             // reset PUT queues
             hx->p->queues.puts.queue.clear();
-            hx->p->queues.puts.queue.resize(hx->p->range_server.total_range_servers);
+            hx->p->queues.puts.queue.resize(hx->p->range_server.datastores.total);
             hx->p->queues.puts.count = 0;
             hx->p->queues.puts.flushed = false;
         }
-- 
2.43.0


From f793a8cd2a2b87d813416e00ffe54acfc2c88e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:51 +0000
Subject: [PATCH 02/70] fix: decode floating point exponents whose first
 flipped digit is 0

elen::decode::floating_point recognised a zero exponent by its first digit,
but exponents encoded as negative numbers have flipped digits, so 9 (and
90-99) looked like 0 and e.g. -44400000 decoded to -0.0444.
---
 include/utils/elen.tpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/utils/elen.tpp b/include/utils/elen.tpp
index 14b977a..f627040 100644
--- a/include/utils/elen.tpp
+++ b/include/utils/elen.tpp
@@ -409,7 +409,9 @@ T floating_point(const std::string &str, const char neg, const char pos) {
     std::size_t position = prefix_count;
 
     // only decode exponent portion if the exponent is not 0
-    if (wo_sign[position] != '0') {
+    // (a prefix is always present on non-zero exponents, while the first digit
+    //  of a negative exponent can be '0' after flipping)
+    if (prefix_count) {
         // read the encoded lengths
         position = prefix_count;
         std::size_t len = 1;
-- 
2.43.0


From 16851489d10705db59ffb0bc8b3f169d933bfb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:50 +0000
Subject: [PATCH 03/70] fix: encode and decode the minimum signed integers and
 8 bit integers

Negating INT32_MIN/INT64_MIN overflows, and the result was encoded as
garbage that decodes to another number. 8 bit integers were read back as a
single character.
---
 include/utils/elen.tpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/utils/elen.tpp b/include/utils/elen.tpp
index f627040..29ca7e7 100644
--- a/include/utils/elen.tpp
+++ b/include/utils/elen.tpp
@@ -41,11 +41,12 @@ std::string unique(const T value, const char prefix, const char neg, const char
 template <typename T,
           typename Cond>
 std::string integers(const T value, const char neg, const char pos) {
+    // use the magnitude because the minimum value cannot be negated
     if (value < 0) {
-        return unique<T, Cond>(-value, neg, neg, pos);
+        return unique<unsigned long long, Cond>(0 - static_cast<unsigned long long>(value), neg, neg, pos);
     }
     else if (value > 0) {
-        return unique<T, Cond>(value, pos, neg, pos);
+        return unique<unsigned long long, Cond>(value, pos, neg, pos);
     }
 
     return "0";
@@ -275,13 +276,16 @@ T integers(const std::string &str, std::size_t* prefix_len, const char neg, cons
         *prefix_len = position + len;
     }
 
-    // read the final value
-    T out = next<T, std::true_type>(prefix, str, position, len, neg);
-    if (prefix == neg) {
-        out = -out;
+    // read the magnitude of the final value
+    const unsigned long long magnitude = next<unsigned long long, std::true_type>(prefix, str, position, len, neg);
+
+    const bool negative = (prefix == neg);
+    const unsigned long long max = std::numeric_limits<T>::max();
+    if (magnitude > (max + ((negative && std::is_signed<T>::value)?1:0))) {
+        throw std::invalid_argument(ERROR_PREFIX + "Decode Integer: Value does not fit: " + str);
     }
 
-    return out;
+    return negative?static_cast<T>(0 - magnitude):static_cast<T>(magnitude);
 }
 
 // Chapter 4 Small Decimals
-- 
2.43.0


From 4b18c5b24c0cd994b48a5e119aaf4c703388374a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:04 +0000
Subject: [PATCH 04/70] fix: keep the largest and the subnormal floating point
 values when encoding

Scaling them needs powers of 10 outside of the range of a double, so that
values above about 3e307 decoded to infinity and subnormals to 0.
---
 include/utils/elen.hpp | 1 +
 include/utils/elen.tpp | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/utils/elen.hpp b/include/utils/elen.hpp
index 53861b0..fb9af23 100644
--- a/include/utils/elen.hpp
+++ b/include/utils/elen.hpp
@@ -5,6 +5,7 @@
 // Peter Seymour
 // https://github.com/jordanorelli/lexnum
 
+#include <algorithm>
 #include <cmath>
 #include <iomanip>
 #include <limits>
diff --git a/include/utils/elen.tpp b/include/utils/elen.tpp
index 29ca7e7..ff58383 100644
--- a/include/utils/elen.tpp
+++ b/include/utils/elen.tpp
@@ -144,7 +144,8 @@ template <typename R, typename Z, typename = enable_if_t<std::is_arithmetic<R>::
                                                          std::is_integral<Z>::value> >
 R frexp10(const R arg, Z *exp) {
     *exp = (arg == 0) ? 0 : (Z)(1 + std::round(std::log10(std::fabs(arg))));
-    return arg * pow(10 , -(*exp));
+    // powers of 10 needed by the largest and subnormal doubles do not fit in a double
+    return static_cast<R>(arg * std::pow(10.0L, -(*exp)));
 }
 
 // Chapter 6 Floating Pointer Numbers
@@ -440,7 +441,10 @@ T floating_point(const std::string &str, const char neg, const char pos) {
         mantissa = small_decimals<T, std::true_type>(sign + wo_sign.substr(position, wo_sign.size() - position), neg, pos);
     }
 
-    return std::pow(10, ((sign == neg)?-1:1) * exp) * mantissa;
+    // the largest values can be rounded up past the end of the range when encoding
+    const long double max = std::numeric_limits<T>::max();
+    const long double value = std::pow(10.0L, ((sign == neg)?-1:1) * exp) * mantissa;
+    return static_cast<T>(std::max(-max, std::min(max, value)));
 }
 
 }
-- 
2.43.0


From a1278ed1543a1557d9537f79adc133bd0b924a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:23 +0000
Subject: [PATCH 05/70] fix: refuse to store infinities and NaNs

They have no encoding: what was stored could not be decoded, and reading it
back threw an exception through the range server.
---
 include/datastore/transform.tpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/datastore/transform.tpp b/include/datastore/transform.tpp
index e446606..aa06380 100644
--- a/include/datastore/transform.tpp
+++ b/include/datastore/transform.tpp
@@ -1,6 +1,7 @@
 #ifndef TRANSFORM_TPP
 #define TRANSFORM_TPP
 
+#include <cmath>
 #include <cstring>
 
 #include "datastore/constants.hpp"
@@ -42,6 +43,11 @@ int floating_point(void *src, const size_t,
         return DATASTORE_ERROR;
     }
 
+    // the encoding is only defined for finite numbers
+    if (!std::isfinite(* (T *) src)) {
+        return DATASTORE_ERROR;
+    }
+
     NumericExtra *num_extra = (NumericExtra *) extra;
 
     const std::string encoded = elen::encode::floating_point(* (T *) src,
-- 
2.43.0


From a03bc17dfea72dfaba0a7be833519b5cfcd9fb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:56 +0000
Subject: [PATCH 06/70] fix: guard the results of background PUTs with their
 mutex

The background thread stored results without holding async_puts.mutex, and
FlushPuts took and destroyed them without it.
---
 src/hxhim/init.cpp      |  3 ++-
 src/hxhim/ops/FLUSH.cpp | 10 +++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/hxhim/init.cpp b/src/hxhim/init.cpp
index 66bc1e2..816867f 100644
--- a/src/hxhim/init.cpp
+++ b/src/hxhim/init.cpp
@@ -262,6 +262,8 @@ static void async_put_thread(hxhim_t *hx) {
 
         // store results in hxhim instance
         {
+            std::unique_lock<std::mutex> async_lock(hx->p->async_puts.mutex);
+
             if (hx->p->async_puts.results) {
                 hx->p->async_puts.results->Append(results);
                 destruct(results);
@@ -270,7 +272,6 @@ static void async_put_thread(hxhim_t *hx) {
                 hx->p->async_puts.results = results;
             }
 
-            std::unique_lock<std::mutex> async_lock(hx->p->async_puts.mutex);
             hx->p->async_puts.done_check = true;
         }
 
diff --git a/src/hxhim/ops/FLUSH.cpp b/src/hxhim/ops/FLUSH.cpp
index 37927da..1b0ec2d 100644
--- a/src/hxhim/ops/FLUSH.cpp
+++ b/src/hxhim/ops/FLUSH.cpp
@@ -42,9 +42,13 @@ hxhim::Results *hxhim::FlushPuts(hxhim_t *hx) {
         hxhim::wait_for_background_puts(hx, false);
 
         // move internal results to res to give to caller
-        res->Append(hx->p->async_puts.results);
-        destruct(hx->p->async_puts.results);
-        hx->p->async_puts.results = nullptr;
+        {
+            // the background thread might be running again
+            std::lock_guard<std::mutex> async_lock(hx->p->async_puts.mutex);
+            res->Append(hx->p->async_puts.results);
+            destruct(hx->p->async_puts.results);
+            hx->p->async_puts.results = nullptr;
+        }
 
         hx->p->queues.puts.mutex.lock();
     }
-- 
2.43.0


From 438867bcc75ca9afa245edc019f6c7bf16df3653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 07/70] fix: guard the request statistics shared with the
 background PUT thread

process() is run by the background PUT thread at the same time as by the
caller flushing other operations; both modified the same maps.
---
 include/hxhim/private/Stats.hpp   | 5 +++++
 include/hxhim/private/process.hpp | 9 +++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/hxhim/private/Stats.hpp b/include/hxhim/private/Stats.hpp
index 1fea7d8..01e4e87 100644
--- a/include/hxhim/private/Stats.hpp
+++ b/include/hxhim/private/Stats.hpp
@@ -3,6 +3,7 @@
 
 #include <map>
 #include <list>
+#include <mutex>
 #include <ostream>
 
 #include "hxhim/constants.h"
@@ -19,6 +20,10 @@ struct Global {
     // how long each bulk operation called by the user took
     std::map<enum hxhim_op_t, std::list<::Stats::Chronostamp> > bulk_op;
 
+    // protects used and outgoing, which are updated while processing
+    // requests and thus by the background PUT thread as well
+    std::mutex mutex;
+
     // how many entries of a message packet were used before sending
     // max number of entries per message should never change
     std::map<enum hxhim_op_t, std::list<std::size_t> > used;
diff --git a/include/hxhim/private/process.hpp b/include/hxhim/private/process.hpp
index a677510..d23723a 100644
--- a/include/hxhim/private/process.hpp
+++ b/include/hxhim/private/process.hpp
@@ -1,6 +1,8 @@
 #ifndef PROCESS_HPP
 #define PROCESS_HPP
 
+#include <mutex>
+
 #include "hxhim/private/Results.hpp"
 #include "hxhim/private/hxhim.hpp"
 #include "transport/backend/local/RangeServer.hpp"
@@ -71,8 +73,11 @@ hxhim::Results *process(hxhim_t *hx,
             #if PRINT_TIMESTAMPS
             ::Stats::Chronopoint collect_stats_start = ::Stats::now();
             #endif
-            hx->p->stats.used[req->op].push_back(req->filled());
-            hx->p->stats.outgoing[req->op][req->dst]++;
+            {
+                std::lock_guard<std::mutex> stats_lock(hx->p->stats.mutex);
+                hx->p->stats.used[req->op].push_back(req->filled());
+                hx->p->stats.outgoing[req->op][req->dst]++;
+            }
             #if PRINT_TIMESTAMPS
             ::Stats::Chronopoint collect_stats_end = ::Stats::now();
             ::Stats::print_event(hx->p->print_buffer, rank, "collect_stats",
-- 
2.43.0


From e3da425227e6c51b8de90dcd28837dd45bf92319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:29 +0000
Subject: [PATCH 08/70] fix: queue single type bulk operations like the other
 bulk operations

BPutSingleType flushed immediately when asynchronous PUTs were disabled, dropping
the results, and touched the queue without its lock when they were enabled.
BGetOpSingleType rejected every call with operations, and its C name did not
match its declaration.
---
 src/hxhim/ops/single_type.cpp | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/hxhim/ops/single_type.cpp b/src/hxhim/ops/single_type.cpp
index 8033e4e..73b684d 100644
--- a/src/hxhim/ops/single_type.cpp
+++ b/src/hxhim/ops/single_type.cpp
@@ -12,10 +12,10 @@ int hxhim::BPutSingleType(hxhim_t *hx,
                           const std::size_t count) {
     mlog(HXHIM_CLIENT_DBG, "Started %zu PUTs of type %d", count, object_type);
 
-    if (!started(hx)||
-        !subjects   || !subject_lens   ||
-        !predicates || !predicate_lens ||
-        !objects    || !object_lens    ||
+    if (!started(hx) ||
+        !subjects    || !subject_lens   || !subject_types   ||
+        !predicates  || !predicate_lens || !predicate_types ||
+        !objects     || !object_lens    ||
         !permutations) {
         return HXHIM_ERROR;
     }
@@ -23,6 +23,10 @@ int hxhim::BPutSingleType(hxhim_t *hx,
     ::Stats::Chronostamp bput;
     bput.start = ::Stats::now();
 
+    if (hx->p->async_puts.enabled) {
+        hx->p->queues.puts.mutex.lock();
+    }
+
     for(std::size_t i = 0; i < count; i++) {
         hxhim::PutImpl(hx,
                        hx->p->queues.puts.queue,
@@ -34,9 +38,7 @@ int hxhim::BPutSingleType(hxhim_t *hx,
 
     if (hx->p->async_puts.enabled) {
         hx->p->queues.puts.start_processing.notify_all();
-    }
-    else {
-        hxhim::serial_puts(hx);
+        hx->p->queues.puts.mutex.unlock();
     }
 
     mlog(HXHIM_CLIENT_DBG, "Completed %zu PUTs of type %d", count, object_type);
@@ -67,8 +69,8 @@ int hxhim::BGetSingleType(hxhim_t *hx,
     mlog(HXHIM_CLIENT_DBG, "Started %zu GETs of type %d", count, object_type);
 
     if (!started(hx) ||
-        !subjects    || !subject_lens   ||
-        !predicates  || !predicate_lens) {
+        !subjects    || !subject_lens   || !subject_types   ||
+        !predicates  || !predicate_lens || !predicate_types) {
         return HXHIM_ERROR;
     }
 
@@ -111,9 +113,9 @@ int hxhim::BGetOpSingleType(hxhim_t *hx,
     mlog(HXHIM_CLIENT_DBG, "Started %zu GETs of type %d", count, object_type);
 
     if (!started(hx) ||
-        !subjects    || !subject_lens   ||
-        !predicates  || !predicate_lens ||
-        !num_records || ops)             {
+        !subjects    || !subject_lens   || !subject_types   ||
+        !predicates  || !predicate_lens || !predicate_types ||
+        !num_records || !ops) {
         return HXHIM_ERROR;
     }
 
@@ -136,7 +138,7 @@ int hxhim::BGetOpSingleType(hxhim_t *hx,
     return HXHIM_SUCCESS;
 }
 
-int hxhimBGetOPSingleType(hxhim_t *hx,
+int hxhimBGetOpSingleType(hxhim_t *hx,
                           void **subjects, size_t *subject_lens, enum hxhim_data_t *subject_types,
                           void **predicates, size_t *predicate_lens, enum hxhim_data_t *predicate_types,
                           enum hxhim_data_t object_type,
-- 
2.43.0


From a59e24f96e3e6cec5ce88a1711cb3356fa1a6a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:26 +0000
Subject: [PATCH 09/70] fix: size GETOP responses for EQ and for the record
 that reports an error

EQ ignores the number of records, so asking for 0 wrote past the arrays, as did
reporting an error for 0 records. Results with no records were used after being
freed.
---
 src/datastore/datastore.cpp |  9 ++++++---
 src/hxhim/Results.cpp       | 10 ++++++++++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index 261cbbc..a8f717d 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -451,9 +451,12 @@ void Datastore::Datastore::BGetOp_loop_init(Message::Request::BGetOp *req,
     // does not modify serialized size
     // set status early so failures during copy will change the status
     // all responses for this Op share a status
-    res->add(alloc_array<Blob>(req->num_recs[i]),
-             alloc_array<Blob>(req->num_recs[i]),
-             alloc_array<Blob>(req->num_recs[i]),
+    // EQ ignores num_recs and always has space for 1 record
+    // errors are reported in an extra record
+    const std::size_t max_recs = ((req->ops[i] == hxhim_getop_t::HXHIM_GETOP_EQ)?1:req->num_recs[i]) + 1;
+    res->add(alloc_array<Blob>(max_recs),
+             alloc_array<Blob>(max_recs),
+             alloc_array<Blob>(max_recs),
              0,
              DATASTORE_UNSET);
 
diff --git a/src/hxhim/Results.cpp b/src/hxhim/Results.cpp
index 1e6a510..5a594b0 100644
--- a/src/hxhim/Results.cpp
+++ b/src/hxhim/Results.cpp
@@ -138,6 +138,11 @@ hxhim::Result::Result *hxhim::Result::init(hxhim_t *hx, Message::Response::Respo
             break;
     }
 
+    // GETOPs might not have found anything
+    if (!ret) {
+        return nullptr;
+    }
+
     // set timestamps
     if (i == 0) {
         ret->timestamps.alloc = construct<::Stats::Chronostamp>(res->timestamps.allocate);
@@ -177,6 +182,11 @@ hxhim::Result::Get *hxhim::Result::init(hxhim_t *hx, Message::Response::BGet *bg
 hxhim::Result::GetOp *hxhim::Result::init(hxhim_t *hx, Message::Response::BGetOp *bgetop, const std::size_t i) {
     const int status = bgetop->statuses[i];
 
+    // nothing was found
+    if (!bgetop->num_recs[i]) {
+        return nullptr;
+    }
+
     hxhim::Result::GetOp *top = construct<hxhim::Result::GetOp>(hx, bgetop->src, status);
 
     hxhim::Result::GetOp *prev = nullptr;
-- 
2.43.0


From d03e7c77fd7cf31a2d38aa0808c4f5e3c6b732af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:48 +0000
Subject: [PATCH 10/70] fix: keep range reads inside of the requested prefix

HIGHEST sought the start of the prefix instead of its end, so it never found the
highest records. EQ returned the next record when none had the prefix. The
in-memory datastore walked off of both ends of its map and compared past the ends
of short keys.
---
 include/datastore/datastore.hpp |  7 +++++++
 src/datastore/InMemory.cpp      | 33 ++++++++++++++++-----------------
 src/datastore/LevelDB.cpp       | 19 ++++++++++++-------
 src/datastore/RocksDB.cpp       | 19 ++++++++++++-------
 src/datastore/datastore.cpp     | 30 ++++++++++++++++++++++++++++++
 5 files changed, 77 insertions(+), 31 deletions(-)

diff --git a/include/datastore/datastore.hpp b/include/datastore/datastore.hpp
index 3578d86..b4447bd 100644
--- a/include/datastore/datastore.hpp
+++ b/include/datastore/datastore.hpp
@@ -157,6 +157,13 @@ class Datastore {
                                     std::size_t predicate_len,
                                     hxhim_data_t predicate_type);
 
+        // first position after all of the values found by HIGHEST
+        // empty if there is no such position
+        std::string BGetOp_get_seek_past(const Blob &key,
+                                         std::size_t prefix_len,
+                                         std::size_t predicate_len,
+                                         hxhim_data_t predicate_type);
+
         template <typename Key_t, typename Value_t>
         static void BGetOp_copy_response(Transform::Callbacks *callbacks,
                                          const Key_t &key,
diff --git a/src/datastore/InMemory.cpp b/src/datastore/InMemory.cpp
index 68a31c3..dbbb313 100644
--- a/src/datastore/InMemory.cpp
+++ b/src/datastore/InMemory.cpp
@@ -199,7 +199,8 @@ Message::Response::BGetOp *Datastore::InMemory::BGetOpImpl(Message::Request::BGe
             if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_EQ) {
                 it = db.lower_bound(std::string((const char *) key.data(), prefix_len));
 
-                if (it != db.end()) {
+                if ((it != db.end()) &&
+                    (it->first.compare(0, prefix_len, (const char *) key.data(), prefix_len) == 0)) {
                     // only 1 response, so j == 0 (num_recs is ignored)
                     this->template BGetOp_copy_response(callbacks, it->first, it->second, req, res, i, 0, event);
                 }
@@ -257,9 +258,10 @@ Message::Response::BGetOp *Datastore::InMemory::BGetOpImpl(Message::Request::BGe
             else if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_LAST) {
                 // ignore key
                 it = db.end();
-                it--;
 
-                if (it != db.end()) {
+                if (it != db.begin()) {
+                    it--;
+
                     for(std::size_t j = 0; j < req->num_recs[i]; j++) {
                         this->template BGetOp_copy_response(callbacks, it->first, it->second, req, res, i, j, event);
                         if (it == db.begin()) {
@@ -282,7 +284,7 @@ Message::Response::BGetOp *Datastore::InMemory::BGetOpImpl(Message::Request::BGe
                     for(std::size_t j = 0;
                         (j < req->num_recs[i]) &&
                         (it != db.end()) &&
-                        (memcmp(key.data(), it->first.data(), prefix_len) == 0);
+                        (it->first.compare(0, prefix_len, (const char *) key.data(), prefix_len) == 0);
                         j++) {
                         this->template BGetOp_copy_response(callbacks, it->first, it->second, req, res, i, j, event);
                         it++;
@@ -293,28 +295,25 @@ Message::Response::BGetOp *Datastore::InMemory::BGetOpImpl(Message::Request::BGe
                 }
             }
             else if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_HIGHEST) {
-                const std::string seek = BGetOp_get_seek(key, prefix_len, predicate_len,
-                                                         req->predicates[i].data_type());
+                const std::string past = BGetOp_get_seek_past(key, prefix_len, predicate_len,
+                                                              req->predicates[i].data_type());
 
-                // find first key larger than the prefix
-                it = db.upper_bound(seek);
+                // find first key after the prefix
+                it = past.size()?db.lower_bound(past):db.end();
 
-                // go back one since the seek value is guaranteed to be past the last value found
-                if (it != db.end()) {
+                // go back one since the position is guaranteed to be past the last value found
+                if (it != db.begin()) {
                     it--;
-                }
-                else {
-                    it = db.rbegin().base();
-                }
 
-                if (it != db.end()) {
                     // walk backwards to get values
                     for(std::size_t j = 0;
                         (j < req->num_recs[i]) &&
-                        (it != db.rend().base()) &&
-                        (memcmp(key.data(), it->first.data(), prefix_len) == 0);
+                        (it->first.compare(0, prefix_len, (const char *) key.data(), prefix_len) == 0);
                         j++) {
                         this->template BGetOp_copy_response(callbacks, it->first, it->second, req, res, i, j, event);
+                        if (it == db.begin()) {
+                            break;
+                        }
                         it--;
                     }
                 }
diff --git a/src/datastore/LevelDB.cpp b/src/datastore/LevelDB.cpp
index 734c397..31654e1 100644
--- a/src/datastore/LevelDB.cpp
+++ b/src/datastore/LevelDB.cpp
@@ -242,9 +242,11 @@ Message::Response::BGetOp *Datastore::LevelDB::BGetOpImpl(Message::Request::BGet
 
         if (res->statuses[i] == DATASTORE_UNSET) {
             if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_EQ) {
-                it->Seek(::leveldb::Slice((char *) key.data(), prefix_len));
+                ::leveldb::Slice prefix((char *) key.data(), prefix_len); // need prefix for starts_with()
 
-                if (it->Valid()) {
+                it->Seek(prefix);
+
+                if (it->Valid() && it->key().starts_with(prefix)) {
                     // only 1 response, so j == 0 (num_recs is ignored)
                     this->template BGetOp_copy_response(callbacks,
                                                         it->key(), it->value(),
@@ -334,14 +336,17 @@ Message::Response::BGetOp *Datastore::LevelDB::BGetOpImpl(Message::Request::BGet
                 }
             }
             else if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_HIGHEST) {
-                const std::string seek = BGetOp_get_seek(key, prefix_len, predicate_len,
-                                                         req->predicates[i].data_type());
+                const std::string past = BGetOp_get_seek_past(key, prefix_len, predicate_len,
+                                                              req->predicates[i].data_type());
                 ::leveldb::Slice prefix((char *) key.data(), prefix_len); // need prefix for starts_with()
 
-                it->Seek(::leveldb::Slice(seek.data(), seek.size()));
+                // find first key after the prefix
+                if (past.size()) {
+                    it->Seek(past);
+                }
 
-                // go back one since the seek value is guaranteed to be past the last value found
-                if (it->Valid()) {
+                // go back one since the position is guaranteed to be past the last value found
+                if (past.size() && it->Valid()) {
                     it->Prev();
                 }
                 else {
diff --git a/src/datastore/RocksDB.cpp b/src/datastore/RocksDB.cpp
index bc47284..54aa4df 100644
--- a/src/datastore/RocksDB.cpp
+++ b/src/datastore/RocksDB.cpp
@@ -242,9 +242,11 @@ Message::Response::BGetOp *Datastore::RocksDB::BGetOpImpl(Message::Request::BGet
 
         if (res->statuses[i] == DATASTORE_UNSET) {
             if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_EQ) {
-                it->Seek(::rocksdb::Slice((char *) key.data(), prefix_len));
+                ::rocksdb::Slice prefix((char *) key.data(), prefix_len); // need prefix for starts_with()
 
-                if (it->Valid()) {
+                it->Seek(prefix);
+
+                if (it->Valid() && it->key().starts_with(prefix)) {
                     // only 1 response, so j == 0 (num_recs is ignored)
                     this->template BGetOp_copy_response(callbacks,
                                                         it->key(), it->value(),
@@ -334,14 +336,17 @@ Message::Response::BGetOp *Datastore::RocksDB::BGetOpImpl(Message::Request::BGet
                 }
             }
             else if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_HIGHEST) {
-                const std::string seek = BGetOp_get_seek(key, prefix_len, predicate_len,
-                                                         req->predicates[i].data_type());
+                const std::string past = BGetOp_get_seek_past(key, prefix_len, predicate_len,
+                                                              req->predicates[i].data_type());
                 ::rocksdb::Slice prefix((char *) key.data(), prefix_len); // need prefix for starts_with()
 
-                it->Seek(::rocksdb::Slice(seek.data(), seek.size()));
+                // find first key after the prefix
+                if (past.size()) {
+                    it->Seek(past);
+                }
 
-                // go back one since the seek value is guaranteed to be past the last value found
-                if (it->Valid()) {
+                // go back one since the position is guaranteed to be past the last value found
+                if (past.size() && it->Valid()) {
                     it->Prev();
                 }
                 else {
diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index a8f717d..f693daf 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -519,6 +519,36 @@ std::string Datastore::Datastore::BGetOp_get_seek(const Blob &key,
     return seek;
 }
 
+std::string Datastore::Datastore::BGetOp_get_seek_past(const Blob &key,
+                                                       std::size_t prefix_len,
+                                                       std::size_t predicate_len,
+                                                       hxhim_data_t predicate_type) {
+    std::string past((char *) key.data(), prefix_len);
+
+    if ((predicate_len == 0) &&
+        ((predicate_type == HXHIM_DATA_INT32)   ||
+         (predicate_type == HXHIM_DATA_INT64)   ||
+         (predicate_type == HXHIM_DATA_UINT32)  ||
+         (predicate_type == HXHIM_DATA_UINT64)  ||
+         (predicate_type == HXHIM_DATA_FLOAT)   ||
+         (predicate_type == HXHIM_DATA_DOUBLE))) {
+        // past the last numerical value with the given prefix
+        past += (char) (callbacks->numeric_extra.pos + 1);
+        return past;
+    }
+
+    // smallest string larger than all strings with the given prefix
+    while (past.size() && ((unsigned char) past.back() == 0xff)) {
+        past.pop_back();
+    }
+
+    if (past.size()) {
+        past.back()++;
+    }
+
+    return past;
+}
+
 void Datastore::Datastore::BGetOp_error_response(Message::Response::BGetOp *res,
                                                  const std::size_t i,
                                                  Blob &subject, Blob &predicate,
-- 
2.43.0


From 2c2b120dcb254843da1e94284686e14419152783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:51 +0000
Subject: [PATCH 11/70] fix: report operations that could not be encoded by
 LevelDB and RocksDB

The status of the batch overwrote the failure of individual PUTs and DELETEs.
---
 src/datastore/LevelDB.cpp | 8 ++++++--
 src/datastore/RocksDB.cpp | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/datastore/LevelDB.cpp b/src/datastore/LevelDB.cpp
index 31654e1..78b7b4c 100644
--- a/src/datastore/LevelDB.cpp
+++ b/src/datastore/LevelDB.cpp
@@ -124,7 +124,7 @@ Message::Response::BPut *Datastore::LevelDB::BPutImpl(Message::Request::BPut *re
     for(std::size_t i = 0; i < req->count; i++) {
         res->add(ReferenceBlob(req->orig.subjects[i], req->subjects[i].size(), req->subjects[i].data_type()),
                  ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type()),
-                 res_status);
+                 (res->statuses[i] == DATASTORE_UNSET)?res_status:DATASTORE_ERROR);
     }
 
     event.time.end = ::Stats::now();
@@ -424,6 +424,7 @@ Message::Response::BDelete *Datastore::LevelDB::BDeleteImpl(Message::Request::BD
         void *predicate = nullptr;
         std::size_t predicate_len = 0;
 
+        int status = DATASTORE_ERROR; // successful batching will set to DATASTORE_UNSET
         if ((encode(callbacks, req->subjects[i],   &subject,   &subject_len)   == DATASTORE_SUCCESS) &&
             (encode(callbacks, req->predicates[i], &predicate, &predicate_len) == DATASTORE_SUCCESS)) {
             // create the key from the subject and predicate
@@ -433,8 +434,11 @@ Message::Response::BDelete *Datastore::LevelDB::BDeleteImpl(Message::Request::BD
                       &key);
             batch.Delete(::leveldb::Slice((char *) key.data(), key.size()));
             event.size += key.size();
+            status = DATASTORE_UNSET;
         }
 
+        res->statuses[i] = status;
+
         if (subject != req->subjects[i].data()) {
             dealloc(subject);
         }
@@ -450,7 +454,7 @@ Message::Response::BDelete *Datastore::LevelDB::BDeleteImpl(Message::Request::BD
     for(std::size_t i = 0; i < req->count; i++) {
         res->add(ReferenceBlob(req->orig.subjects[i], req->subjects[i].size(), req->subjects[i].data_type()),
                  ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type()),
-                 stat);
+                 (res->statuses[i] == DATASTORE_UNSET)?stat:DATASTORE_ERROR);
     }
 
     event.time.end = ::Stats::now();
diff --git a/src/datastore/RocksDB.cpp b/src/datastore/RocksDB.cpp
index 54aa4df..77742a4 100644
--- a/src/datastore/RocksDB.cpp
+++ b/src/datastore/RocksDB.cpp
@@ -124,7 +124,7 @@ Message::Response::BPut *Datastore::RocksDB::BPutImpl(Message::Request::BPut *re
     for(std::size_t i = 0; i < req->count; i++) {
         res->add(ReferenceBlob(req->orig.subjects[i], req->subjects[i].size(), req->subjects[i].data_type()),
                  ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type()),
-                 res_status);
+                 (res->statuses[i] == DATASTORE_UNSET)?res_status:DATASTORE_ERROR);
     }
 
     event.time.end = ::Stats::now();
@@ -424,6 +424,7 @@ Message::Response::BDelete *Datastore::RocksDB::BDeleteImpl(Message::Request::BD
         void *predicate = nullptr;
         std::size_t predicate_len = 0;
 
+        int status = DATASTORE_ERROR; // successful batching will set to DATASTORE_UNSET
         if ((encode(callbacks, req->subjects[i],   &subject,   &subject_len)   == DATASTORE_SUCCESS) &&
             (encode(callbacks, req->predicates[i], &predicate, &predicate_len) == DATASTORE_SUCCESS)) {
             // create the key from the subject and predicate
@@ -433,8 +434,11 @@ Message::Response::BDelete *Datastore::RocksDB::BDeleteImpl(Message::Request::BD
                       &key);
             batch.Delete(::rocksdb::Slice((char *) key.data(), key.size()));
             event.size += key.size();
+            status = DATASTORE_UNSET;
         }
 
+        res->statuses[i] = status;
+
         if (subject != req->subjects[i].data()) {
             dealloc(subject);
         }
@@ -450,7 +454,7 @@ Message::Response::BDelete *Datastore::RocksDB::BDeleteImpl(Message::Request::BD
     for(std::size_t i = 0; i < req->count; i++) {
         res->add(ReferenceBlob(req->orig.subjects[i], req->subjects[i].size(), req->subjects[i].data_type()),
                  ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type()),
-                 stat);
+                 (res->statuses[i] == DATASTORE_UNSET)?stat:DATASTORE_ERROR);
     }
 
     event.time.end = ::Stats::now();
-- 
2.43.0


From 44e0d9ae179337c8ab3dee605ae0ff1cabb75808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:03 +0000
Subject: [PATCH 12/70] fix: use the transform functions set by users

They did not replace the default ones or ones that were previously set, and
HXHIM_SUCCESS, which they are documented to return, was treated as an error.
---
 src/datastore/datastore.cpp | 8 ++++++--
 src/hxhim/init.cpp          | 4 ++--
 src/hxhim/options.cpp       | 4 ++--
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index f693daf..5ee8653 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -390,7 +390,9 @@ int Datastore::Datastore::encode(Transform::Callbacks *callbacks,
         return DATASTORE_SUCCESS;
     }
 
-    return it->second.first(src.data(), src.size(), dst, dst_size, it->second.second);
+    // callbacks set by users return HXHIM_SUCCESS
+    const int rc = it->second.first(src.data(), src.size(), dst, dst_size, it->second.second);
+    return ((rc == DATASTORE_SUCCESS) || (rc == HXHIM_SUCCESS))?DATASTORE_SUCCESS:DATASTORE_ERROR;
 }
 
 int Datastore::Datastore::decode(Transform::Callbacks *callbacks,
@@ -409,7 +411,9 @@ int Datastore::Datastore::decode(Transform::Callbacks *callbacks,
         return DATASTORE_SUCCESS;
     }
 
-    return it->second.first(src.data(), src.size(), dst, dst_size, it->second.second);
+    // callbacks set by users return HXHIM_SUCCESS
+    const int rc = it->second.first(src.data(), src.size(), dst, dst_size, it->second.second);
+    return ((rc == DATASTORE_SUCCESS) || (rc == HXHIM_SUCCESS))?DATASTORE_SUCCESS:DATASTORE_ERROR;
 }
 
 Datastore::Datastore::Stats::Event::Event()
diff --git a/src/hxhim/init.cpp b/src/hxhim/init.cpp
index 816867f..40c1e1d 100644
--- a/src/hxhim/init.cpp
+++ b/src/hxhim/init.cpp
@@ -89,10 +89,10 @@ static ::Datastore::Transform::Callbacks *transform(hxhim_t *hx) {
 
     // overwrite existing callbacks with those set in opts
     for(decltype(transform.encode)::value_type const &callback : transform.encode) {
-        callbacks->encode.emplace(callback);
+        callbacks->encode[callback.first] = callback.second;
     }
     for(decltype(transform.decode)::value_type const &callback : transform.decode) {
-        callbacks->decode.emplace(callback);
+        callbacks->decode[callback.first] = callback.second;
     }
 
     return callbacks;
diff --git a/src/hxhim/options.cpp b/src/hxhim/options.cpp
index f178f62..3daef6f 100644
--- a/src/hxhim/options.cpp
+++ b/src/hxhim/options.cpp
@@ -320,8 +320,8 @@ int hxhim_set_transform_function(hxhim_t *hx, const enum hxhim_data_t type,
         return HXHIM_ERROR;
     }
 
-    hx->p->range_server.datastores.transform.encode.emplace(type, std::make_pair(encode, encode_extra));
-    hx->p->range_server.datastores.transform.decode.emplace(type, std::make_pair(decode, decode_extra));
+    hx->p->range_server.datastores.transform.encode[type] = std::make_pair(encode, encode_extra);
+    hx->p->range_server.datastores.transform.decode[type] = std::make_pair(decode, decode_extra);
 
     return HXHIM_SUCCESS;
 }
-- 
2.43.0


From ccdc56e8266373ede0b69196b3a9c3e66cf2a89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:02 +0000
Subject: [PATCH 13/70] fix: accept histogram requests for every datastore

---
 src/hxhim/ops/BHISTOGRAM.cpp | 2 +-
 src/hxhim/ops/HISTOGRAM.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hxhim/ops/BHISTOGRAM.cpp b/src/hxhim/ops/BHISTOGRAM.cpp
index 699f2bd..fb576ba 100644
--- a/src/hxhim/ops/BHISTOGRAM.cpp
+++ b/src/hxhim/ops/BHISTOGRAM.cpp
@@ -22,7 +22,7 @@ int hxhim::BHistogram(hxhim_t *hx,
 
     for(std::size_t i = 0; i < count; i++) {
         if ((rs_ids[i] < 0) ||
-            (rs_ids[i] >= (int) hx->p->range_server.total_range_servers)) {
+            (rs_ids[i] >= (int) hx->p->range_server.datastores.total)) {
             return HXHIM_ERROR;
         }
 
diff --git a/src/hxhim/ops/HISTOGRAM.cpp b/src/hxhim/ops/HISTOGRAM.cpp
index de1a19b..1d2141c 100644
--- a/src/hxhim/ops/HISTOGRAM.cpp
+++ b/src/hxhim/ops/HISTOGRAM.cpp
@@ -13,7 +13,7 @@ int hxhim::Histogram(hxhim_t *hx, int rs_id,
                      const char *name, const std::size_t len) {
     if (!started(hx) ||
         (rs_id < 0)  ||
-        (rs_id >= (int) hx->p->range_server.total_range_servers)) {
+        (rs_id >= (int) hx->p->range_server.datastores.total)) {
         return HXHIM_ERROR;
     }
 
-- 
2.43.0


From 5b470bcbdce04a1f76b258a862c8113c851e9368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:55 +0000
Subject: [PATCH 14/70] fix: do not access GETOP results as GET results

---
 src/hxhim/Results.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/hxhim/Results.cpp b/src/hxhim/Results.cpp
index 5a594b0..7955277 100644
--- a/src/hxhim/Results.cpp
+++ b/src/hxhim/Results.cpp
@@ -641,8 +641,14 @@ int hxhim::Results::Object(void **object, std::size_t *object_len, hxhim_data_t
         return HXHIM_ERROR;
     }
 
-    hxhim::Result::Get *get = static_cast<hxhim::Result::Get *>(res);
-    get->object.get(object, object_len, object_type);
+    // GETs and GETOPs are not the same type
+    if (res->op == hxhim_op_t::HXHIM_GETOP) {
+        static_cast<hxhim::Result::GetOp *>(res)->object.get(object, object_len, object_type);
+    }
+    else {
+        static_cast<hxhim::Result::Get *>(res)->object.get(object, object_len, object_type);
+    }
+
     return HXHIM_SUCCESS;
 }
 
-- 
2.43.0


From c32d8822ac6792c7f89b2d67be07c3391b8b4a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:11 +0000
Subject: [PATCH 15/70] fix: pack empty blobs and release the previous data of
 blobs that are unpacked into

---
 src/utils/Blob.cpp | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/utils/Blob.cpp b/src/utils/Blob.cpp
index 78990cb..89c1820 100644
--- a/src/utils/Blob.cpp
+++ b/src/utils/Blob.cpp
@@ -112,15 +112,18 @@ void Blob::dealloc() {
 // the blob argument is assumed to be defined and large enough to fit the data
 // (length is not known)
 char *Blob::pack(char *&dst, const bool include_type) const {
-    if (!dst || !ptr) {
+    if (!dst || (!ptr && len)) {
         return nullptr;
     }
 
     little_endian::encode(dst, len);
     dst += sizeof(len);
 
-    memcpy(dst, ptr, len);
-    dst += len;
+    // an empty blob only has a length (and a type)
+    if (len) {
+        memcpy(dst, ptr, len);
+        dst += len;
+    }
 
     if (include_type) {
         little_endian::encode(dst, type);
@@ -145,15 +148,22 @@ char *Blob::unpack(char *&src, const bool include_type, const bool copy) {
         throw std::runtime_error("unable to unpack blob");
     }
 
+    // release existing data, but keep the type in case it was not packed
+    const hxhim_data_t existing = type;
+    Blob::dealloc();
+    type = existing;
+
     little_endian::decode(len, src);
     src += sizeof(len);
 
-    if ((clean = copy)) {
-        ptr = alloc(len);
-        memcpy(ptr, src, len);
-    }
-    else {
-        ptr = src;
+    if (len) {
+        if ((clean = copy)) {
+            ptr = alloc(len);
+            memcpy(ptr, src, len);
+        }
+        else {
+            ptr = src;
+        }
     }
     src += len;
 
@@ -194,6 +204,11 @@ char *Blob::unpack_ref(char *&src, const bool include_type) {
         return nullptr;
     }
 
+    // release existing data, but keep the type in case it was not packed
+    const hxhim_data_t existing = type;
+    Blob::dealloc();
+    type = existing;
+
     memcpy(&ptr, src, sizeof(ptr));
     src += sizeof(ptr);
 
-- 
2.43.0


From e91f2aa1cdf41846380b124cdeee245e2f593971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:36 +0000
Subject: [PATCH 16/70] fix: announce the size that GETOP responses are packed
 into

---
 src/message/BGetOp.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/message/BGetOp.cpp b/src/message/BGetOp.cpp
index 57adf0e..9848d95 100644
--- a/src/message/BGetOp.cpp
+++ b/src/message/BGetOp.cpp
@@ -1,3 +1,4 @@
+#include "datastore/constants.hpp"
 #include "message/BGetOp.hpp"
 
 Message::Request::BGetOp::BGetOp(const std::size_t max)
@@ -103,8 +104,12 @@ std::size_t Message::Response::BGetOp::add(Blob *subject,
     size_t ds = sizeof(num_rec);
     for(std::size_t i = 0; i < num_rec; i++) {
         ds += subject[i].pack_size(true) +
-            predicate[i].pack_size(true) +
-            object[i].pack_size(true);
+            predicate[i].pack_size(true);
+
+        // objects are only sent when the operation succeeded
+        if (status == DATASTORE_SUCCESS) {
+            ds += object[i].pack_size(true);
+        }
     }
 
     subjects[count] = subject;
@@ -113,7 +118,7 @@ std::size_t Message::Response::BGetOp::add(Blob *subject,
     num_recs[count] = num_rec;
 
     // status is shared by all responses
-    return Response::add(status, sizeof(num_rec) + ds, true);
+    return Response::add(status, ds, true);
 }
 
 std::size_t Message::Response::BGetOp::update_size(const std::size_t index) {
-- 
2.43.0


From bc66a2a865d42767aab67a4a93d69e9e59b56763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:13 +0000
Subject: [PATCH 17/70] fix: only restore complete histograms

---
 src/utils/Histogram.cpp | 68 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 64 insertions(+), 4 deletions(-)

diff --git a/src/utils/Histogram.cpp b/src/utils/Histogram.cpp
index cca9aba..78124de 100644
--- a/src/utils/Histogram.cpp
+++ b/src/utils/Histogram.cpp
@@ -151,6 +151,62 @@ int histogram_uniform_logn(const double *first_n, const size_t n, double **bucke
     return generate_using_bin_count(min, max, std::ceil((max - min) * std::log((std::size_t) (uintptr_t) extra) / std::log(max - min)), buckets, size);
 }
 
+/**
+ * valid
+ * Check whether or not a buffer starts with a complete serialized Histogram
+ *
+ * @param curr  the buffer
+ * @param avail how much data is in the buffer
+ * @return true or false
+ */
+static bool valid(const char *curr, std::size_t avail) {
+    if (!curr || (avail < (4 * sizeof(std::size_t)))) {
+        return false;
+    }
+
+    // remove a length from the front of the buffer
+    auto get = [&curr, &avail](std::size_t &len) -> bool {
+        if (avail < sizeof(len)) {
+            return false;
+        }
+
+        memcpy(&len, curr, sizeof(len));
+        curr  += sizeof(len);
+        avail -= sizeof(len);
+        return true;
+    };
+
+    // skip an array
+    auto skip = [&curr, &avail](const std::size_t count, const std::size_t width) -> bool {
+        if (count > (avail / width)) {
+            return false;
+        }
+
+        curr  += count * width;
+        avail -= count * width;
+        return true;
+    };
+
+    std::size_t name_len = 0;
+    std::size_t count = 0;
+    std::size_t first_n = 0;
+    std::size_t size = 0;
+
+    if (!get(name_len) || !skip(name_len, 1) ||
+        !get(count)    || !get(first_n)) {
+        return false;
+    }
+
+    // only cached values or buckets are available
+    if (count < first_n) {
+        return (skip(count, sizeof(double)) && get(size) && !size);
+    }
+
+    return (get(size) &&
+            (!size || (skip(size, sizeof(double) + sizeof(std::size_t)) &&
+                       skip(1, sizeof(double)))));
+}
+
 Histogram::Histogram::Histogram()
     : name_(),
       first_n_(0),
@@ -289,7 +345,7 @@ int Histogram::Histogram::get_cache(std::size_t *first_n,
     }
 
     if (size) {
-        *size = std::min(first_n_, count_);
+        *size = cache_?std::min(first_n_, count_):0;
     }
 
     return HISTOGRAM_SUCCESS;
@@ -466,8 +522,7 @@ bool Histogram::Histogram::unpack(const void *buf, const std::size_t size) {
  * @return true on success, false on error
  */
 bool Histogram::Histogram::unpack(char *&curr, std::size_t &size, std::size_t *used) {
-    if (!curr ||
-        (size < (4 * sizeof(std::size_t)))) {
+    if (!valid(curr, size)) {
         return false;
     }
 
@@ -488,8 +543,11 @@ bool Histogram::Histogram::unpack(char *&curr, std::size_t &size, std::size_t *u
     memcpy(&first_n_, curr, sizeof(first_n_));
     curr += sizeof(first_n_);
 
+    // the cached values are not available once the buckets have been generated
+    dealloc_array(cache_);
+    cache_ = nullptr;
+
     if (count_ < first_n_) {
-        dealloc_array(cache_);
         cache_ = alloc_array<double>(first_n_);
 
         for(std::size_t i = 0; i < count_; i++) {
@@ -517,6 +575,8 @@ bool Histogram::Histogram::unpack(char *&curr, std::size_t &size, std::size_t *u
         curr += sizeof(buckets_[size_]);
     }
 
+    size -= curr - orig;
+
     if (used) {
         *used = curr - orig;
     }
-- 
2.43.0


From 83dca9742f027479a2d96408b172fba888c90349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:21 +0000
Subject: [PATCH 18/70] fix: always generate at least one histogram bucket

---
 src/utils/Histogram.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/utils/Histogram.cpp b/src/utils/Histogram.cpp
index 78124de..26429c6 100644
--- a/src/utils/Histogram.cpp
+++ b/src/utils/Histogram.cpp
@@ -22,7 +22,7 @@ static int minmax(const double *values, const std::size_t len, double &min, doub
     const double *max_it = std::max_element(values, values + len);
 
     if (max_it == (values + len)) {
-        max = std::numeric_limits<double>::min();
+        max = std::numeric_limits<double>::lowest();
     }
     else {
         max = *max_it;
@@ -31,11 +31,14 @@ static int minmax(const double *values, const std::size_t len, double &min, doub
     return HISTOGRAM_SUCCESS;
 }
 
-static int generate_using_bin_count(const double &min, const double &max, const std::size_t bin_count, double **buckets, size_t *size) {
+static int generate_using_bin_count(const double &min, const double &max, const double &bins_wanted, double **buckets, size_t *size) {
     if (!buckets || !size) {
         return HISTOGRAM_ERROR;
     }
 
+    // the values might not be spread out enough to calculate the number of buckets
+    const std::size_t bin_count = (std::isfinite(bins_wanted) && (bins_wanted >= 1))?bins_wanted:1;
+
     double *bins = alloc_array<double>(bin_count + 1);
 
     // generate the left ends of the buckets
@@ -136,7 +139,7 @@ int histogram_scotts_normal_reference_rule(const double *first_n, const size_t n
     // width of a bin
     const double h = 3.5 * stdev / std::cbrt(n);
 
-    return generate_using_bin_count(min, max, (min - max) / h, buckets, size);
+    return generate_using_bin_count(min, max, (max - min) / h, buckets, size);
 }
 
 int histogram_uniform_logn(const double *first_n, const size_t n, double **buckets, size_t *size, void *extra) {
@@ -274,7 +277,7 @@ int Histogram::Histogram::add(const double &value) {
             }
 
             // initialize the upper bound
-            buckets_[size_] = std::numeric_limits<double>::min();
+            buckets_[size_] = std::numeric_limits<double>::lowest();
 
             // insert original data
             for(std::size_t i = 0; i < first_n_; i++) {
-- 
2.43.0


From 33d814418cc12835d32c468cfaee20e1deeb4b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:49 +0000
Subject: [PATCH 19/70] fix: continue adding values to restored histograms

---
 include/utils/Histogram.hpp  |  3 +++
 src/datastore/datastores.cpp |  4 ++++
 src/hxhim/hxhim.cpp          | 11 ++++++++---
 src/utils/Histogram.cpp      | 22 +++++++++++++++++++++-
 4 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/include/utils/Histogram.hpp b/include/utils/Histogram.hpp
index f778ece..7d00a0a 100644
--- a/include/utils/Histogram.hpp
+++ b/include/utils/Histogram.hpp
@@ -32,6 +32,9 @@ class Histogram {
         // Add a value to the histogram
         int add(const double &value);
 
+        // Set the bucket generator of a histogram that was unpacked
+        int set_generator(const Config &config);
+
         int get_name(std::string &name) const;
         int get_name(const char **name, std::size_t *name_len) const;
 
diff --git a/src/datastore/datastores.cpp b/src/datastore/datastores.cpp
index 126d5a0..3d19d5f 100644
--- a/src/datastore/datastores.cpp
+++ b/src/datastore/datastores.cpp
@@ -130,6 +130,10 @@ Datastore::Init(hxhim_t *hx,
                 (existing->find(name) == existing->end())) {   // histogram doesn't exist
                 ds->AddHistogram(name, hist_config);
             }
+            else {
+                // bucket generators are not stored
+                existing->at(name)->set_generator(hist_config);
+            }
         }
     }
 
diff --git a/src/hxhim/hxhim.cpp b/src/hxhim/hxhim.cpp
index efe31c3..b5ea6c0 100644
--- a/src/hxhim/hxhim.cpp
+++ b/src/hxhim/hxhim.cpp
@@ -390,10 +390,15 @@ hxhim::Results *hxhim::ChangeDatastoreName(hxhim_t *hx, const std::string &basen
                    write_histograms,
                    read_histograms?&hx->p->histograms.names:nullptr);
 
-        if (create_missing) {
-            const ::Datastore::Datastore::Histograms *hists = nullptr;
-            ds->GetHistograms(&hists);
+        const ::Datastore::Datastore::Histograms *hists = nullptr;
+        ds->GetHistograms(&hists);
+
+        // bucket generators are not stored
+        for(REF(*hists)::value_type const &hist : *hists) {
+            hist.second->set_generator(hx->p->histograms.config);
+        }
 
+        if (create_missing) {
             for(std::string const &hist_name : hx->p->histograms.names) {
                 if (hists->find(hist_name) == hists->end()){
                     ds->AddHistogram(hist_name, hx->p->histograms.config);
diff --git a/src/utils/Histogram.cpp b/src/utils/Histogram.cpp
index 26429c6..f00e2f3 100644
--- a/src/utils/Histogram.cpp
+++ b/src/utils/Histogram.cpp
@@ -270,8 +270,12 @@ int Histogram::Histogram::add(const double &value) {
     // insert into the buckets if the limit has been hit
     if (count_ >= first_n_) {
         if (!buckets_) {
+            if (!gen_) {
+                return HISTOGRAM_ERROR;
+            }
+
             // generate the buckets and allocate space for the counts
-            if ((gen_(cache_, count_, &buckets_, &size_, extra_) != HISTOGRAM_SUCCESS) ||
+            if ((gen_(cache_, std::min(first_n_, count_), &buckets_, &size_, extra_) != HISTOGRAM_SUCCESS) ||
                 (gen_counts()                                    != HISTOGRAM_SUCCESS)) {
                 return HISTOGRAM_ERROR;
             }
@@ -295,6 +299,22 @@ int Histogram::Histogram::add(const double &value) {
     return HISTOGRAM_SUCCESS;
 }
 
+/**
+ * set_generator
+ * Sets how the buckets will be generated.
+ * Bucket generators are not serialized, so histograms
+ * that were unpacked need them to be set again.
+ * Existing buckets are not changed.
+ *
+ * @param config    the configuration containing the bucket generator
+ * @return HISTOGRAM_SUCCESS
+ */
+int Histogram::Histogram::set_generator(const Config &config) {
+    gen_ = config.generator;
+    extra_ = config.extra_args;
+    return HISTOGRAM_SUCCESS;
+}
+
 /**
  * get_name
  * Gets this histogram's name.
-- 
2.43.0


From 1c38cde0b3a21ff83489a8dbdfc68089a90738e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:38 +0000
Subject: [PATCH 20/70] fix: read records without types without accessing
 memory outside of them

---
 include/datastore/datastore.hpp |  3 +++
 include/datastore/datastore.tpp | 14 ++++++++------
 src/datastore/InMemory.cpp      |  4 ++--
 src/datastore/LevelDB.cpp       |  4 ++--
 src/datastore/RocksDB.cpp       |  4 ++--
 src/datastore/datastore.cpp     | 21 +++++++++++++++++----
 6 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/include/datastore/datastore.hpp b/include/datastore/datastore.hpp
index b4447bd..1cce259 100644
--- a/include/datastore/datastore.hpp
+++ b/include/datastore/datastore.hpp
@@ -117,6 +117,9 @@ class Datastore {
         static Blob append_type(void *ptr, std::size_t size, hxhim_data_t type);
         static hxhim_data_t remove_type(const void *ptr, std::size_t &size);
 
+        // name of any type, including ones that are not known
+        static const char *type_name(const hxhim_data_t type);
+
     protected:
         int rank;      // MPI rank of HXHIM instance
         int id;
diff --git a/include/datastore/datastore.tpp b/include/datastore/datastore.tpp
index e97c85e..f50ac69 100644
--- a/include/datastore/datastore.tpp
+++ b/include/datastore/datastore.tpp
@@ -25,14 +25,14 @@ void Datastore::Datastore::BGetOp_copy_response(Transform::Callbacks *callbacks,
 
         if (encoded_subject.data_type() != req->subjects[i].data_type()) {
             mlog(DATASTORE_WARN, "GETOP Decoded subject data type (%s) does not match provided data type (%s). Using decoded type.",
-                 HXHIM_DATA_STR[encoded_subject.data_type()],
-                 HXHIM_DATA_STR[req->subjects[i].data_type()]);
+                 type_name(encoded_subject.data_type()),
+                 type_name(req->subjects[i].data_type()));
         }
 
         if (encoded_predicate.data_type() != req->predicates[i].data_type()) {
             mlog(DATASTORE_WARN, "GETOP Decoded predicate data type (%s) does not match provided data type (%s).  Using decoded type.",
-                 HXHIM_DATA_STR[encoded_predicate.data_type()],
-                 HXHIM_DATA_STR[req->predicates[i].data_type()]);
+                 type_name(encoded_predicate.data_type()),
+                 type_name(req->predicates[i].data_type()));
         }
 
         std::size_t value_len = value.size();
@@ -40,8 +40,8 @@ void Datastore::Datastore::BGetOp_copy_response(Transform::Callbacks *callbacks,
         Blob encoded_object = ReferenceBlob((char *) value.data(), value_len, value_type);
         if (encoded_object.data_type() != req->object_types[i]) {
             mlog(DATASTORE_WARN, "GETOP Decoded object data type (%s) does not match provided data type (%s). Using decoded type.",
-                 HXHIM_DATA_STR[encoded_object.data_type()],
-                 HXHIM_DATA_STR[req->object_types[i]]);
+                 type_name(encoded_object.data_type()),
+                 type_name(req->object_types[i]));
         }
 
         void *subject = nullptr;
@@ -62,6 +62,8 @@ void Datastore::Datastore::BGetOp_copy_response(Transform::Callbacks *callbacks,
             event.size += key.size() + value.size();
         }
         else {
+            dealloc(subject);
+            dealloc(predicate);
             res->statuses[i] = DATASTORE_ERROR;
         }
     }
diff --git a/src/datastore/InMemory.cpp b/src/datastore/InMemory.cpp
index dbbb313..0a05b4d 100644
--- a/src/datastore/InMemory.cpp
+++ b/src/datastore/InMemory.cpp
@@ -135,8 +135,8 @@ Message::Response::BGet *Datastore::InMemory::BGetImpl(Message::Request::BGet *r
                     object_type = remove_type((void *) it->second.data(), value_len);
                     if (object_type != req->object_types[i]) {
                         mlog(DATASTORE_WARN, "GET extracted object data type (%s) does not match provided data type (%s). Using extracted type.",
-                             HXHIM_DATA_STR[object_type],
-                             HXHIM_DATA_STR[req->object_types[i]]);
+                             type_name(object_type),
+                             type_name(req->object_types[i]));
                     }
 
                     // decode the object
diff --git a/src/datastore/LevelDB.cpp b/src/datastore/LevelDB.cpp
index 78b7b4c..40f484b 100644
--- a/src/datastore/LevelDB.cpp
+++ b/src/datastore/LevelDB.cpp
@@ -181,8 +181,8 @@ Message::Response::BGet *Datastore::LevelDB::BGetImpl(Message::Request::BGet *re
                 object_type = remove_type((void *) value.data(), value_len);
                 if (object_type != req->object_types[i]) {
                     mlog(DATASTORE_WARN, "GET extracted object data type (%s) does not match provided data type (%s). Using extracted type.",
-                         HXHIM_DATA_STR[object_type],
-                         HXHIM_DATA_STR[req->object_types[i]]);
+                         type_name(object_type),
+                         type_name(req->object_types[i]));
                 }
 
                 // decode the object
diff --git a/src/datastore/RocksDB.cpp b/src/datastore/RocksDB.cpp
index 77742a4..944f59f 100644
--- a/src/datastore/RocksDB.cpp
+++ b/src/datastore/RocksDB.cpp
@@ -181,8 +181,8 @@ Message::Response::BGet *Datastore::RocksDB::BGetImpl(Message::Request::BGet *re
                 object_type = remove_type((void *) value.data(), value_len);
                 if (object_type != req->object_types[i]) {
                     mlog(DATASTORE_WARN, "GET extracted object data type (%s) does not match provided data type (%s). Using extracted type.",
-                         HXHIM_DATA_STR[object_type],
-                         HXHIM_DATA_STR[req->object_types[i]]);
+                         type_name(object_type),
+                         type_name(req->object_types[i]));
                 }
 
                 // decode the object
diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index 5ee8653..2deb377 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -436,15 +436,28 @@ Blob Datastore::Datastore::append_type(void *ptr, std::size_t size, hxhim_data_t
 }
 
 hxhim_data_t Datastore::Datastore::remove_type(const void *ptr, std::size_t &size) {
-    hxhim_data_t type;
-    char *curr = (char *) ptr;
+    hxhim_data_t type = hxhim_data_t::HXHIM_DATA_INVALID;
+
+    // not created by append_type
+    if (size < sizeof(type)) {
+        return type;
+    }
+
     size -= sizeof(type);
-    curr += size;
-    type = * (hxhim_data_t *) curr;
+    memcpy(&type, ((char *) ptr) + size, sizeof(type));
 
     return type;
 }
 
+const char *Datastore::Datastore::type_name(const hxhim_data_t type) {
+    // types can be defined by users, and histograms are stored without types
+    if ((type < 0) || (type > hxhim_data_t::HXHIM_DATA_MAX_KNOWN)) {
+        return "Unknown Type";
+    }
+
+    return HXHIM_DATA_STR[type];
+}
+
 void Datastore::Datastore::BGetOp_loop_init(Message::Request::BGetOp *req,
                                             Message::Response::BGetOp *res,
                                             const std::size_t i,
-- 
2.43.0


From 13b20868fea5a69fc9a5f9b99502b89102909067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:04 +0000
Subject: [PATCH 21/70] fix: locate datastores using the datastore mapping

---
 src/hxhim/accessors.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/hxhim/accessors.cpp b/src/hxhim/accessors.cpp
index 9bc275a..4561210 100644
--- a/src/hxhim/accessors.cpp
+++ b/src/hxhim/accessors.cpp
@@ -1,4 +1,4 @@
-#include "hxhim/RangeServer.hpp"
+#include "hxhim/Datastore.hpp"
 #include "hxhim/accessors.hpp"
 #include "hxhim/private/accessors.hpp"
 #include "hxhim/private/hxhim.hpp"
@@ -288,10 +288,11 @@ int hxhim::nocheck::GetDatastoreLocation(hxhim_t *hx, const int id, int *rank, i
     }
 
     if (rank) {
-        *rank = RangeServer::get_rank(id,
-                                      hx->p->range_server.client_ratio,
-                                      hx->p->range_server.server_ratio,
-                                      hx->p->range_server.datastores.per_server);
+        *rank = Datastore::get_rank(id,
+                                    hx->p->bootstrap.size,
+                                    hx->p->range_server.client_ratio,
+                                    hx->p->range_server.server_ratio,
+                                    hx->p->range_server.datastores.per_server);
         if (*rank < 0) {
             return HXHIM_ERROR;
         }
-- 
2.43.0


From 5cdb6b209a1ac200eba6cf3a428046e0b466a4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:21 +0000
Subject: [PATCH 22/70] fix: do not lose the leading digit of decimals that
 round up to 1 when encoding

---
 include/utils/elen.tpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/utils/elen.tpp b/include/utils/elen.tpp
index ff58383..74bb600 100644
--- a/include/utils/elen.tpp
+++ b/include/utils/elen.tpp
@@ -63,13 +63,18 @@ std::string small_decimals_digits(const T value, const int precision) {
     s << std::fixed << std::setprecision(precision) << std::abs(value);
 
     // remove leading zero and decimal point
-    char tmp[2];
+    char tmp[2] = {};
     s.read(tmp, 2);
 
     // read out digits
     std::string out;
     s >> out;
 
+    // values that round up to 1 are encoded as the largest value smaller than 1
+    if (tmp[0] != '0') {
+        out.assign(out.size(), '9');
+    }
+
     // negatives get their digits flipped
     if (value < 0) {
         flip(out);
-- 
2.43.0


From e51c037cba231a0554e495ae58390d52b947bd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:22 +0000
Subject: [PATCH 23/70] fix: do not overflow when hashing large values by their
 sum

---
 src/hxhim/hash.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hxhim/hash.cpp b/src/hxhim/hash.cpp
index 79434a6..bc28d83 100644
--- a/src/hxhim/hash.cpp
+++ b/src/hxhim/hash.cpp
@@ -71,13 +71,13 @@ int hxhim_hash_SumModDatastores(hxhim_t *hx, void *subject, const size_t subject
     std::size_t count = 0;
     hxhim::nocheck::GetDatastoreCount(hx, &count);
 
-    int dst = 0;
+    std::size_t dst = 0;
     for(std::size_t i = 0; i < subject_len; i++) {
-        dst += (int) (uint8_t) ((char *) subject)[i];
+        dst += (uint8_t) ((char *) subject)[i];
     }
 
     for(std::size_t i = 0; i < predicate_len; i++) {
-        dst += (int) (uint8_t) ((char *) predicate)[i];
+        dst += (uint8_t) ((char *) predicate)[i];
     }
 
     return dst % count;
-- 
2.43.0


From c6b06c1a1b4fe40fd440acf328cea5ab7f412f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:02 +0000
Subject: [PATCH 24/70] fix: use the ELEN symbols as the default configuration
 values

---
 include/hxhim/config.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hxhim/config.hpp b/include/hxhim/config.hpp
index 72885d2..577c3e0 100644
--- a/include/hxhim/config.hpp
+++ b/include/hxhim/config.hpp
@@ -201,8 +201,8 @@ const Config::Config DEFAULT_CONFIG = {
     std::make_pair(HISTOGRAM_BUCKET_GEN_NAME,     "10_BUCKETS"),
     std::make_pair(HISTOGRAM_READ_EXISTING,       "true"),
     std::make_pair(HISTOGRAM_WRITE_AT_EXIT,       "true"),
-    std::make_pair(ELEN_NEG_SYMBOL,               std::string(elen::NEG_SYMBOL, 1)),
-    std::make_pair(ELEN_NEG_SYMBOL,               std::string(elen::POS_SYMBOL, 1)),
+    std::make_pair(ELEN_NEG_SYMBOL,               std::string(1, elen::NEG_SYMBOL)),
+    std::make_pair(ELEN_POS_SYMBOL,               std::string(1, elen::POS_SYMBOL)),
     std::make_pair(ELEN_ENCODE_FLOAT_PRECISION,   std::to_string(elen::encode::FLOAT_PRECISION)),
     std::make_pair(ELEN_ENCODE_DOUBLE_PRECISION,  std::to_string(elen::encode::DOUBLE_PRECISION)),
 };
-- 
2.43.0


From 0520a27ca2b517ae113ff97f8eead76a19b2c436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:13 +0000
Subject: [PATCH 25/70] fix: read lists of endpoint ranks without looping
 forever

---
 src/hxhim/config.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/hxhim/config.cpp b/src/hxhim/config.cpp
index 3b5da67..e9e8330 100644
--- a/src/hxhim/config.cpp
+++ b/src/hxhim/config.cpp
@@ -235,16 +235,21 @@ static bool parse_endpointgroup(hxhim_t *hx, const Config::Config &config) {
             return true;
         }
         else {
+            std::stringstream ids(endpointgroup->second);
             int id;
-            while (std::stringstream(endpointgroup->second) >> id) {
+            while (ids >> id) {
                 if (hxhim_add_endpoint_to_group(hx, id) != HXHIM_SUCCESS) {
                     // should probably write to mlog and continue instead of returning
                     return false;
                 }
             }
+            // stopped at something that is not a rank
+            return ids.eof();
         }
     }
-    return false;
+
+    // not setting the endpoint group is not an error
+    return true;
 }
 
 static bool parse_elen(hxhim_t *hx, const Config::Config &config) {
-- 
2.43.0


From 31032b93eb35865708c8ec865f5a1ec92c1e20eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:16 +0000
Subject: [PATCH 26/70] fix: refuse negative values for unsigned configuration
 settings

---
 include/utils/Configuration.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/utils/Configuration.hpp b/include/utils/Configuration.hpp
index 99e5626..f8a40a2 100644
--- a/include/utils/Configuration.hpp
+++ b/include/utils/Configuration.hpp
@@ -4,6 +4,7 @@
 #include <list>
 #include <sstream>
 #include <string>
+#include <type_traits>
 #include <unordered_map>
 
 #include "utils/macros.hpp"
@@ -144,6 +145,11 @@ int get_value(const Config &config, const std::string &config_key, T &v) {
     // find the key
     Config_it in_config = config.find(config_key);
     if (in_config != config.end()) {
+        // streams wrap negative values around when reading unsigned types
+        if (std::is_unsigned<T>::value &&
+            (in_config->second.find('-') != std::string::npos)) {
+            return ERROR;
+        }
         return (std::stringstream(in_config->second) >> v)?FOUND:ERROR;
     }
 
-- 
2.43.0


From 61869a5ca69f83d0bee55f3ae1d2603996d23eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:56 +0000
Subject: [PATCH 27/70] fix: do not cut string configuration values off at the
 first space

---
 include/utils/Configuration.hpp | 12 ++++++++++++
 src/utils/Configuration.cpp     | 20 ++++++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/include/utils/Configuration.hpp b/include/utils/Configuration.hpp
index f8a40a2..44cf88d 100644
--- a/include/utils/Configuration.hpp
+++ b/include/utils/Configuration.hpp
@@ -167,6 +167,18 @@ int get_value(const Config &config, const std::string &config_key, T &v) {
  */
 int get_value(const Config &config, const std::string &config_key, bool &b);
 
+/**
+ * get_value <std::string> overload
+ * Helper function for reading strings from the configuration
+ * The entire value is returned, including whitespace
+ *
+ * @param config     the configuration
+ * @param config_key the entry in the configuraion to read
+ * @param str        the value of the configuration
+ * @return CONFIG_FOUND if the configuration value was found, or CONFIG_NOT_FOUND if the configuration key was not found
+ */
+int get_value(const Config &config, const std::string &config_key, std::string &str);
+
 /**
  * get_from_map
  * Helper function for getting values from a map with the value read from the configuration
diff --git a/src/utils/Configuration.cpp b/src/utils/Configuration.cpp
index 57c469a..a162be9 100644
--- a/src/utils/Configuration.cpp
+++ b/src/utils/Configuration.cpp
@@ -163,3 +163,23 @@ int Config::get_value(const Config &config, const std::string &config_key, bool
 
     return NOT_FOUND;
 }
+
+/**
+ * get_value <std::string> overload
+ * Helper function for reading strings from the configuration
+ *
+ * @param config     the configuration
+ * @param config_key the entry in the configuraion to read
+ * @param str        the value of the configuration
+ * @return Config::FOUND if the configuration value was found, or Config::NOT_FOUND if the configuration key was not found
+ */
+int Config::get_value(const Config &config, const std::string &config_key, std::string &str) {
+    // find the key
+    Config_it in_config = config.find(config_key);
+    if (in_config != config.end()) {
+        str = in_config->second;
+        return FOUND;
+    }
+
+    return NOT_FOUND;
+}
-- 
2.43.0


From 87c6ff62a33405098f52d0d14ad97376e69486fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:00 +0000
Subject: [PATCH 28/70] fix: apply every configuration setting that is given

---
 src/hxhim/config.cpp | 114 +++++++++++++++++++++++++++----------------
 1 file changed, 71 insertions(+), 43 deletions(-)

diff --git a/src/hxhim/config.cpp b/src/hxhim/config.cpp
index e9e8330..6f3af0a 100644
--- a/src/hxhim/config.cpp
+++ b/src/hxhim/config.cpp
@@ -92,25 +92,34 @@ bool parse_map_value(hxhim_t *hx, const Config::Config &config, const std::strin
  * @return a boolean indicating whether or not an error was encountered
  */
 static bool parse_datastore(hxhim_t *hx, const Config::Config &config) {
-    // required
+    // values that are not found are not changed
+    Config::get_value(config,
+                      hxhim::config::DATASTORE_PREFIX,
+                      hx->p->range_server.datastores.prefix);
+    Config::get_value(config,
+                      hxhim::config::DATASTORE_BASENAME,
+                      hx->p->range_server.datastores.basename);
+    Config::get_value(config,
+                      hxhim::config::DATASTORE_POSTFIX,
+                      hx->p->range_server.datastores.postfix);
+
     Datastore::Type datastore;
-    if ((Config::get_from_map(config,
-                              hxhim::config::DATASTORE_TYPE,
-                              hxhim::config::DATASTORES,
-                              datastore) != Config::FOUND) ||
-        (Config::get_value(config,
-                           hxhim::config::DATASTORE_PREFIX,
-                           hx->p->range_server.datastores.prefix) != Config::FOUND) ||
-        (Config::get_value(config,
-                           hxhim::config::DATASTORE_BASENAME,
-                           hx->p->range_server.datastores.basename) != Config::FOUND)) {
+    const int ret = Config::get_from_map(config,
+                                         hxhim::config::DATASTORE_TYPE,
+                                         hxhim::config::DATASTORES,
+                                         datastore);
+    if (ret == Config::ERROR) {
         return false;
     }
 
-    // optional
-    Config::get_value(config,
-                      hxhim::config::DATASTORE_POSTFIX,
-                      hx->p->range_server.datastores.postfix);
+    // keep the previously configured type, but apply its settings
+    if (ret == Config::NOT_FOUND) {
+        if (!hx->p->range_server.datastores.config) {
+            return false;
+        }
+
+        datastore = hx->p->range_server.datastores.config->type;
+    }
 
     // datastore specific configuration
     switch (datastore) {
@@ -121,11 +130,17 @@ static bool parse_datastore(hxhim_t *hx, const Config::Config &config) {
         case Datastore::LEVELDB:
             {
                 bool create_if_missing = true; // default to true; do not error if not found
-                if (Config::get_value(config, hxhim::config::LEVELDB_CREATE_IF_MISSING,
-                    create_if_missing) == Config::ERROR) {
+                const int create_ret = Config::get_value(config, hxhim::config::LEVELDB_CREATE_IF_MISSING,
+                                                         create_if_missing);
+                if (create_ret == Config::ERROR) {
                     return false;
                 }
 
+                // nothing to change
+                if ((ret == Config::NOT_FOUND) && (create_ret == Config::NOT_FOUND)) {
+                    return true;
+                }
+
                 return (hxhim_set_datastore_leveldb(hx,
                                                     create_if_missing) == HXHIM_SUCCESS);
             }
@@ -135,11 +150,17 @@ static bool parse_datastore(hxhim_t *hx, const Config::Config &config) {
         case Datastore::ROCKSDB:
             {
                 bool create_if_missing = true; // default to true; do not error if not found
-                if (Config::get_value(config, hxhim::config::ROCKSDB_CREATE_IF_MISSING,
-                                      create_if_missing) == Config::ERROR) {
+                const int create_ret = Config::get_value(config, hxhim::config::ROCKSDB_CREATE_IF_MISSING,
+                                                         create_if_missing);
+                if (create_ret == Config::ERROR) {
                     return false;
                 }
 
+                // nothing to change
+                if ((ret == Config::NOT_FOUND) && (create_ret == Config::NOT_FOUND)) {
+                    return true;
+                }
+
                 return (hxhim_set_datastore_rocksdb(hx,
                                                     create_if_missing) == HXHIM_SUCCESS);
             }
@@ -165,6 +186,11 @@ static bool parse_transport(hxhim_t *hx, const Config::Config &config) {
         return false;
     }
 
+    // not setting the transport is not an error
+    if (ret == Config::NOT_FOUND) {
+        return true;
+    }
+
     if (ret == Config::FOUND) {
         switch (transport_type) {
             case Transport::TRANSPORT_NULL:
@@ -298,24 +324,24 @@ static bool parse_elen(hxhim_t *hx, const Config::Config &config) {
 }
 
 static bool parse_histogram(hxhim_t *hx, const Config::Config &config) {
-    if (!parse_value(hx, config, hxhim::config::HISTOGRAM_FIRST_N,          hxhim_set_histogram_first_n)         ||
-        !parse_value(hx, config, hxhim::config::HISTOGRAM_BUCKET_GEN_NAME,  hxhim_set_histogram_bucket_gen_name)) {
-        return false;
-    }
+    // a bad value should not prevent the remaining values from being set
+    bool good = true;
+    good = parse_value(hx, config, hxhim::config::HISTOGRAM_FIRST_N,         hxhim_set_histogram_first_n)         && good;
+    good = parse_value(hx, config, hxhim::config::HISTOGRAM_BUCKET_GEN_NAME, hxhim_set_histogram_bucket_gen_name) && good;
 
     bool read = true; // default to true; do not error if not found
     if (Config::get_value(config, hxhim::config::HISTOGRAM_READ_EXISTING, read) == Config::ERROR) {
-        return false;
+        read = true;
+        good = false;
     }
 
     bool write = true; // default to true; do not error if not found
     if (Config::get_value(config, hxhim::config::HISTOGRAM_WRITE_AT_EXIT, write) == Config::ERROR) {
-        return false;
+        write = true;
+        good = false;
     }
 
-    if (hxhim_datastore_histograms(hx, read, write) != HXHIM_SUCCESS) {
-        return false;
-    }
+    good = (hxhim_datastore_histograms(hx, read, write) == HXHIM_SUCCESS) && good;
 
     Config::Config_it hist_name_it = config.find(hxhim::config::HISTOGRAM_TRACK_PREDICATES);
     if (hist_name_it != config.end()) {
@@ -326,7 +352,7 @@ static bool parse_histogram(hxhim_t *hx, const Config::Config &config) {
         }
     }
 
-    return true;
+    return good;
 }
 
 /**
@@ -348,20 +374,22 @@ static int fill_options(hxhim_t *hx, const Config::Config &config) {
 
     using namespace hxhim::config;
 
-    return
-        parse_map_value(hx, config, DEBUG_LEVEL, DEBUG_LEVELS, hxhim_set_debug_level)                 &&
-        parse_value(hx, config, CLIENT_RATIO,                  hxhim_set_client_ratio)                &&
-        parse_value(hx, config, SERVER_RATIO,                  hxhim_set_server_ratio)                &&
-        parse_value(hx, config, DATASTORES_PER_SERVER,         hxhim_set_datastores_per_server)       &&
-        parse_datastore(hx, config)                                                                   &&
-        parse_transport(hx, config)                                                                   &&
-        parse_endpointgroup(hx, config)                                                               &&
-        parse_value(hx, config, START_ASYNC_PUTS_AT,           hxhim_set_start_async_puts_at)         &&
-        parse_value(hx, config, MAXIMUM_OPS_PER_REQUEST,       hxhim_set_maximum_ops_per_request)     &&
-        parse_value(hx, config, MAXIMUM_SIZE_PER_REQUEST,      hxhim_set_maximum_size_per_request)    &&
-        parse_elen(hx, config)                                                                        &&
-        parse_histogram(hx, config)                                                                   &&
-        true?HXHIM_SUCCESS:HXHIM_ERROR;
+    // a bad value should not prevent the remaining values from being set
+    bool good = true;
+    good = parse_map_value(hx, config, DEBUG_LEVEL, DEBUG_LEVELS, hxhim_set_debug_level)              && good;
+    good = parse_value(hx, config, CLIENT_RATIO,                  hxhim_set_client_ratio)             && good;
+    good = parse_value(hx, config, SERVER_RATIO,                  hxhim_set_server_ratio)             && good;
+    good = parse_value(hx, config, DATASTORES_PER_SERVER,         hxhim_set_datastores_per_server)    && good;
+    good = parse_datastore(hx, config)                                                                && good;
+    good = parse_transport(hx, config)                                                                && good;
+    good = parse_endpointgroup(hx, config)                                                            && good;
+    good = parse_value(hx, config, START_ASYNC_PUTS_AT,           hxhim_set_start_async_puts_at)      && good;
+    good = parse_value(hx, config, MAXIMUM_OPS_PER_REQUEST,       hxhim_set_maximum_ops_per_request)  && good;
+    good = parse_value(hx, config, MAXIMUM_SIZE_PER_REQUEST,      hxhim_set_maximum_size_per_request) && good;
+    good = parse_elen(hx, config)                                                                     && good;
+    good = parse_histogram(hx, config)                                                                && good;
+
+    return good?HXHIM_SUCCESS:HXHIM_ERROR;
 }
 
 /**
-- 
2.43.0


From 4f454ab1b711c0b0a5e05fd086ad0008f03571dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:34 +0000
Subject: [PATCH 29/70] fix: read every setting from its environment variable

---
 include/hxhim/config.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/hxhim/config.hpp b/include/hxhim/config.hpp
index 577c3e0..acc4421 100644
--- a/include/hxhim/config.hpp
+++ b/include/hxhim/config.hpp
@@ -187,11 +187,14 @@ const Config::Config DEFAULT_CONFIG = {
     std::make_pair(LEVELDB_CREATE_IF_MISSING,     "true"),
 #elif HXHIM_HAVE_ROCKSDB
     std::make_pair(DATASTORE_TYPE,                "ROCKSDB"),
-    std::make_pair(ROCKSDB_CREATE_IF_MISSING,     "true"),
 #else
     std::make_pair(DATASTORE_TYPE,                "IN_MEMORY"),
+#endif
+#if HXHIM_HAVE_ROCKSDB
+    std::make_pair(ROCKSDB_CREATE_IF_MISSING,     "true"),
 #endif
     std::make_pair(TRANSPORT,                     "NULL"),
+    std::make_pair(MPI_LISTENERS,                 "1"),
     std::make_pair(HASH,                          "RANK_MOD_DATASTORES"),
     std::make_pair(TRANSPORT_ENDPOINT_GROUP,      "ALL"),
     std::make_pair(START_ASYNC_PUTS_AT,           "0"),
@@ -199,6 +202,7 @@ const Config::Config DEFAULT_CONFIG = {
     std::make_pair(MAXIMUM_SIZE_PER_REQUEST,      "1048576"),
     std::make_pair(HISTOGRAM_FIRST_N,             "10"),
     std::make_pair(HISTOGRAM_BUCKET_GEN_NAME,     "10_BUCKETS"),
+    std::make_pair(HISTOGRAM_TRACK_PREDICATES,    ""),
     std::make_pair(HISTOGRAM_READ_EXISTING,       "true"),
     std::make_pair(HISTOGRAM_WRITE_AT_EXIT,       "true"),
     std::make_pair(ELEN_NEG_SYMBOL,               std::string(1, elen::NEG_SYMBOL)),
-- 
2.43.0


From 1b451646a42466c9f745e0d7654ccfd7ce189ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:10 +0000
Subject: [PATCH 30/70] fix: refuse ELEN precisions that are not positive

---
 src/hxhim/config.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hxhim/config.cpp b/src/hxhim/config.cpp
index 6f3af0a..46ca084 100644
--- a/src/hxhim/config.cpp
+++ b/src/hxhim/config.cpp
@@ -316,7 +316,8 @@ static bool parse_elen(hxhim_t *hx, const Config::Config &config) {
         return false;
     }
 
-    if (flt_precision >= dbl_precision) {
+    // negative precisions would wrap around
+    if ((flt_precision < 1) || (flt_precision >= dbl_precision)) {
         return false;
     }
 
-- 
2.43.0


From 3291f2c815ac38479891c337a7e0a08dae8cef76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:25 +0000
Subject: [PATCH 31/70] fix: refuse options that cannot be used

---
 src/hxhim/options.cpp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/hxhim/options.cpp b/src/hxhim/options.cpp
index 3daef6f..f843827 100644
--- a/src/hxhim/options.cpp
+++ b/src/hxhim/options.cpp
@@ -180,6 +180,10 @@ int hxhim_set_datastore_name(hxhim_t *hx, const char *prefix, const char *basena
         return HXHIM_ERROR;
     }
 
+    if (!prefix || !basename || !postfix) {
+        return HXHIM_ERROR;
+    }
+
     hx->p->range_server.datastores.prefix = prefix;
     hx->p->range_server.datastores.basename = basename;
     hx->p->range_server.datastores.postfix = postfix;
@@ -260,6 +264,10 @@ int hxhim_set_hash_name(hxhim_t *hx, const char *name) {
         return HXHIM_ERROR;
     }
 
+    if (!name) {
+        return HXHIM_ERROR;
+    }
+
     const std::string hash_name = name;
     std::unordered_map<std::string, hxhim_hash_t>::const_iterator it = hxhim::config::HASHES.find(hash_name);
     if (it == hxhim::config::HASHES.end()) {
@@ -289,7 +297,7 @@ int hxhim_set_hash_function(hxhim_t *hx, const char *name, hxhim_hash_t func, vo
         return HXHIM_ERROR;
     }
 
-    if (!func) {
+    if (!name || !func) {
         return HXHIM_ERROR;
     }
 
@@ -373,6 +381,10 @@ int hxhim_set_transport_null(hxhim_t *hx) {
  * @return HXHIM_SUCCESS or HXHIM_ERROR
  */
 int hxhim_set_transport_mpi(hxhim_t *hx, const size_t listeners) {
+    if (!hx || !hx->p) {
+        return HXHIM_ERROR;
+    }
+
     Transport::Options *config = construct<Transport::MPI::Options>(hx->p->bootstrap.comm, listeners);
     if (hxhim_set_transport(hx, config) != HXHIM_SUCCESS) {
         destruct(config);
@@ -485,6 +497,11 @@ int hxhim_set_maximum_ops_per_request(hxhim_t *hx, const std::size_t count) {
         return HXHIM_ERROR;
     }
 
+    // requests must be able to hold at least one operation
+    if (!count) {
+        return HXHIM_ERROR;
+    }
+
     hx->p->queues.max_per_request.ops = count;
 
     return HXHIM_SUCCESS;
@@ -541,6 +558,10 @@ int hxhim_set_histogram_bucket_gen_name(hxhim_t *hx, const char *method) {
         return HXHIM_ERROR;
     }
 
+    if (!method) {
+        return HXHIM_ERROR;
+    }
+
     decltype(hxhim::config::HISTOGRAM_BUCKET_GENERATORS)::const_iterator gen_it = hxhim::config::HISTOGRAM_BUCKET_GENERATORS.find(method);
     if (gen_it == hxhim::config::HISTOGRAM_BUCKET_GENERATORS.end()) {
         return HXHIM_ERROR;
@@ -607,6 +628,10 @@ int hxhim_set_histogram_bucket_gen_function(hxhim_t *hx, HistogramBucketGenerato
  * @return HXHIM_SUCCESS or HXHIM_ERROR
  */
 int hxhim_add_histogram_track_predicate(hxhim_t *hx, const char *name, const size_t name_len) {
+    if (!name) {
+        return HXHIM_ERROR;
+    }
+
     return hxhim_add_histogram_track_predicate(hx, std::string(name, name_len));
 }
 
-- 
2.43.0


From e496104d0271c47282a0bb84e8a970496d0fe7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:41 +0000
Subject: [PATCH 32/70] fix: report operations on an unusable datastore as
 failures

---
 src/datastore/datastore.cpp | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index 2deb377..fc677b5 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -114,9 +114,38 @@ int Datastore::Datastore::ID() const {
     return id;
 }
 
+/**
+ * unusable
+ * Every operation sent to an unusable datastore fails
+ *
+ * @param req  the packet requesting multiple PUTs or DELETEs
+ * @return pointer to a list of failures
+ */
+template <typename Response_t, typename Request_t>
+static Response_t *unusable(Request_t *req) {
+    Response_t *res = construct<Response_t>(req->count);
+    for(std::size_t i = 0; i < req->count; i++) {
+        res->add(ReferenceBlob(req->orig.subjects[i], req->subjects[i].size(), req->subjects[i].data_type()),
+                 ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type()),
+                 DATASTORE_ERROR);
+    }
+    return res;
+}
+
+static Message::Response::BGet *unusable(Message::Request::BGet *req) {
+    Message::Response::BGet *res = construct<Message::Response::BGet>(req->count);
+    for(std::size_t i = 0; i < req->count; i++) {
+        res->add(ReferenceBlob(req->orig.subjects[i], req->subjects[i].size(), req->subjects[i].data_type()),
+                 ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type()),
+                 RealBlob(nullptr, 0, req->object_types[i]),
+                 DATASTORE_ERROR);
+    }
+    return res;
+}
+
 Message::Response::BPut *Datastore::Datastore::operate(Message::Request::BPut *req) {
     std::lock_guard<std::mutex> lock(mutex);
-    Message::Response::BPut *res = Usable()?BPutImpl(req):nullptr;
+    Message::Response::BPut *res = Usable()?BPutImpl(req):unusable<Message::Response::BPut>(req);
 
     if (hists.size() && res) {
         // if a predicate is HXHIM_DATA_BYTE and the PUT was successful
@@ -158,7 +187,7 @@ Message::Response::BPut *Datastore::Datastore::operate(Message::Request::BPut *r
 
 Message::Response::BGet *Datastore::Datastore::operate(Message::Request::BGet *req) {
     std::lock_guard<std::mutex> lock(mutex);
-    return Usable()?BGetImpl(req):nullptr;
+    return Usable()?BGetImpl(req):unusable(req);
 }
 
 Message::Response::BGetOp *Datastore::Datastore::operate(Message::Request::BGetOp *req) {
@@ -168,7 +197,7 @@ Message::Response::BGetOp *Datastore::Datastore::operate(Message::Request::BGetO
 
 Message::Response::BDelete *Datastore::Datastore::operate(Message::Request::BDelete *req) {
     std::lock_guard<std::mutex> lock(mutex);
-    return Usable()?BDeleteImpl(req):nullptr;
+    return Usable()?BDeleteImpl(req):unusable<Message::Response::BDelete>(req);
 }
 
 Message::Response::BHistogram *Datastore::Datastore::operate(Message::Request::BHistogram *req) {
-- 
2.43.0


From 6d9c55060265101a777e912743208ca1970581df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:58 +0000
Subject: [PATCH 33/70] fix: close sessions whose background thread was not
 started

---
 src/hxhim/destroy.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hxhim/destroy.cpp b/src/hxhim/destroy.cpp
index 8ee1e21..3820dda 100644
--- a/src/hxhim/destroy.cpp
+++ b/src/hxhim/destroy.cpp
@@ -40,7 +40,10 @@ int hxhim::destroy::async_puts(hxhim_t *hx) {
     if (hx->p->async_puts.enabled) {
         wait_for_background_puts(hx, true);
 
-        hx->p->async_puts.thread.join();
+        // the thread was not started if the session failed to open
+        if (hx->p->async_puts.thread.joinable()) {
+            hx->p->async_puts.thread.join();
+        }
     }
 
     // release unproceesed results from asynchronous PUTs
-- 
2.43.0


From a2f71381e1ce45cf4a173077cb230de11d64c196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:13 +0000
Subject: [PATCH 34/70] fix: keep the configuration when opening a single
 datastore

---
 src/hxhim/init.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/hxhim/init.cpp b/src/hxhim/init.cpp
index 40c1e1d..ddf2447 100644
--- a/src/hxhim/init.cpp
+++ b/src/hxhim/init.cpp
@@ -182,13 +182,11 @@ int hxhim::init::datastore(hxhim_t *hx) {
  * @return HXHIM_SUCCESS on success or HXHIM_ERROR
  */
 int hxhim::init::one_datastore(hxhim_t *hx, const std::string &name) {
-    if (destroy::datastore(hx) != HXHIM_SUCCESS) {
-        return HXHIM_ERROR;
-    }
-
     // ignore previous values
     hx->p->range_server.client_ratio = 1;
     hx->p->range_server.server_ratio = 1;
+    hx->p->range_server.datastores.per_server = 1;
+    hx->p->range_server.datastores.total = 1;
 
     // ignore configuration hash - everything goes into here
     hx->p->hash.name = "local";
@@ -208,7 +206,7 @@ int hxhim::init::one_datastore(hxhim_t *hx, const std::string &name) {
     }
 
     hx->p->range_server.id = 0;
-    hx->p->range_server.datastores.ds.push_back(ds);
+    hx->p->range_server.datastores.ds.assign(1, ds);
     hx->p->range_server.total_range_servers = 1;
 
     return HXHIM_SUCCESS;
-- 
2.43.0


From 27252959ffea6b76e2d50faabfaec4dbfaf5bd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:29 +0000
Subject: [PATCH 35/70] fix: refuse to open and allow closing sessions that
 were not initialized

---
 src/hxhim/hxhim.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/hxhim/hxhim.cpp b/src/hxhim/hxhim.cpp
index b5ea6c0..93dd77b 100644
--- a/src/hxhim/hxhim.cpp
+++ b/src/hxhim/hxhim.cpp
@@ -94,6 +94,10 @@ int hxhimInit(hxhim_t *hx, MPI_Comm comm) {
  * @return HXHIM_SUCCESS or HXHIM_ERROR
  */
 int hxhim::Open(hxhim_t *hx) {
+    if (!hx || !hx->p) {
+        return HXHIM_ERROR;
+    }
+
     /** don't restart already running instances */
     if (started(hx)) {
         return HXHIM_ERROR;
@@ -184,7 +188,7 @@ int hxhimOpen(hxhim_t *hx) {
  * @return HXHIM_SUCCESS or HXHIM_ERROR
  */
 int hxhim::OpenOne(hxhim_t *hx, const std::string &db_path) {
-    if (started(hx)) {
+    if (!hx || !hx->p || started(hx)) {
         return HXHIM_ERROR;
     }
 
@@ -197,7 +201,9 @@ int hxhim::OpenOne(hxhim_t *hx, const std::string &db_path) {
         (init::one_datastore (hx, db_path) != HXHIM_SUCCESS) ||
         (init::queues        (hx)          != HXHIM_SUCCESS) ||
         (init::async_puts    (hx)          != HXHIM_SUCCESS)) {
-        MPI_Barrier(hx->p->bootstrap.comm);
+        if (hx->p->bootstrap.comm != MPI_COMM_NULL) {
+            MPI_Barrier(hx->p->bootstrap.comm);
+        }
         Close(hx);
         mlog(HXHIM_CLIENT_ERR, "Failed to initialize HXHIM");
         return HXHIM_ERROR;
@@ -217,6 +223,10 @@ int hxhim::OpenOne(hxhim_t *hx, const std::string &db_path) {
  * @return HXHIM_SUCCESS or HXHIM_ERROR
  */
 int hxhimOpenOne(hxhim_t *hx, const char *db_path, const size_t db_path_len) {
+    if (!db_path) {
+        return HXHIM_ERROR;
+    }
+
     return hxhim::OpenOne(hx, std::string(db_path, db_path_len));
 }
 
@@ -249,7 +259,9 @@ int hxhim::Close(hxhim_t *hx) {
     mlog(HXHIM_CLIENT_DBG, "Rank %d Closing HXHIM", rank);
 
     // make sure all ranks are ready to stop
-    MPI_Barrier(comm);
+    if (comm != MPI_COMM_NULL) {
+        MPI_Barrier(comm);
+    }
 
     destroy::async_puts(hx); // complete existing processing and prevent new processing
     destroy::hash(hx);       // prevent new work from hashing properly
-- 
2.43.0


From c97ff0a17261c7d2d4efd7aa8a3c442e9b3d9976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:39 +0000
Subject: [PATCH 36/70] fix: allow C results to outlive their session

---
 src/hxhim/Results.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hxhim/Results.cpp b/src/hxhim/Results.cpp
index 7955277..d3c3880 100644
--- a/src/hxhim/Results.cpp
+++ b/src/hxhim/Results.cpp
@@ -776,7 +776,7 @@ int hxhim::Results::Timestamps(struct hxhim::Result::Timestamps **timestamps) co
  * @return the pointer to the C structure containing the hxhim::Results
  */
 hxhim_results_t *hxhim_results_init(hxhim_t * hx, hxhim::Results *res) {
-    const int rank = hx->p->bootstrap.rank;
+    const int rank = (hx && hx->p)?hx->p->bootstrap.rank:-1;
 
     mlog(HXHIM_CLIENT_DBG, "Rank %d Creating hxhim_results_t using %p", rank, res);
     hxhim_results_t *ret = construct<hxhim_results_t>();
@@ -794,7 +794,8 @@ hxhim_results_t *hxhim_results_init(hxhim_t * hx, hxhim::Results *res) {
  */
 void hxhim_results_destroy(hxhim_results_t *res) {
     if (res) {
-        const int rank = res->hx->p->bootstrap.rank;
+        // results can outlive the session
+        const int rank = (res->hx && res->hx->p)?res->hx->p->bootstrap.rank:-1;
 
         mlog(HXHIM_CLIENT_DBG, "Rank %d Destroying hxhim_results_t %p", rank, res);
         hxhim::Results::Destroy(res->res);
-- 
2.43.0


From e5db6b4697c0675b1d2d9419910b1e366ced6098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:03 +0000
Subject: [PATCH 37/70] fix: refuse to flush sessions that are not open

---
 src/hxhim/ops/FLUSH.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/hxhim/ops/FLUSH.cpp b/src/hxhim/ops/FLUSH.cpp
index 1b0ec2d..2af1e13 100644
--- a/src/hxhim/ops/FLUSH.cpp
+++ b/src/hxhim/ops/FLUSH.cpp
@@ -31,6 +31,10 @@ hxhim::Results *FlushImpl(hxhim_t *hx,
  * @return results from sending the PUTs
  */
 hxhim::Results *hxhim::FlushPuts(hxhim_t *hx) {
+    if (!hxhim::started(hx)) {
+        return nullptr;
+    }
+
     const int rank = hx->p->bootstrap.rank;
 
     mlog(HXHIM_CLIENT_INFO, "Rank %d Flushing PUTs", rank);
@@ -90,6 +94,10 @@ hxhim_results_t *hxhimFlushPuts(hxhim_t *hx) {
  * @return Pointer to return value wrapper
  */
 hxhim::Results *hxhim::FlushGets(hxhim_t *hx) {
+    if (!hxhim::started(hx)) {
+        return nullptr;
+    }
+
     int rank = -1;
     hxhim::nocheck::GetMPI(hx, nullptr, &rank, nullptr);
 
@@ -120,6 +128,10 @@ hxhim_results_t *hxhimFlushGets(hxhim_t *hx) {
  * @return Pointer to return value wrapper
  */
 hxhim::Results *hxhim::FlushGetOps(hxhim_t *hx) {
+    if (!hxhim::started(hx)) {
+        return nullptr;
+    }
+
     int rank = -1;
     hxhim::nocheck::GetMPI(hx, nullptr, &rank, nullptr);
 
@@ -150,6 +162,10 @@ hxhim_results_t *hxhimFlushGetOps(hxhim_t *hx) {
  * @return Pointer to return value wrapper
  */
 hxhim::Results *hxhim::FlushDeletes(hxhim_t *hx) {
+    if (!hxhim::started(hx)) {
+        return nullptr;
+    }
+
     int rank = -1;
     hxhim::nocheck::GetMPI(hx, nullptr, &rank, nullptr);
 
@@ -180,6 +196,10 @@ hxhim_results_t *hxhimFlushDeletes(hxhim_t *hx) {
  * @return Pointer to return value wrapper
  */
 hxhim::Results *hxhim::FlushHistograms(hxhim_t *hx) {
+    if (!hxhim::started(hx)) {
+        return nullptr;
+    }
+
     int rank = -1;
     hxhim::nocheck::GetMPI(hx, nullptr, &rank, nullptr);
 
@@ -213,6 +233,10 @@ hxhim_results_t *hxhimFlushHistograms(hxhim_t *hx) {
  * @return A list of results
  */
 hxhim::Results *hxhim::Flush(hxhim_t *hx) {
+    if (!hxhim::started(hx)) {
+        return nullptr;
+    }
+
     int rank = -1;
     hxhim::nocheck::GetMPI(hx, nullptr, &rank, nullptr);
 
-- 
2.43.0


From 33b83b3b24f0a69dbf7119241a209765094c4c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:15 +0000
Subject: [PATCH 38/70] fix: refuse operations on datastores that cannot be
 reached

---
 src/hxhim/ops/impl.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/hxhim/ops/impl.cpp b/src/hxhim/ops/impl.cpp
index 41c9911..f80a1de 100644
--- a/src/hxhim/ops/impl.cpp
+++ b/src/hxhim/ops/impl.cpp
@@ -6,6 +6,20 @@
 #include "utils/mlog2.h"
 #include "utils/mlogfacs2.h"
 
+/**
+ * reachable
+ * The return value of the hash function can come from the user
+ *
+ * @param hx     the HXHIM session
+ * @param id     the datastore ID to check
+ * @return whether or not operations can be sent to the datastore
+ */
+static bool reachable(hxhim_t *hx, const int id) {
+    return (id >= 0) && ((std::size_t) id < hx->p->queues.ds_to_rank.size()) &&
+        // only the local datastores are available when there is no transport
+        (hx->p->transport.transport || (hx->p->queues.ds_to_rank[id] == hx->p->bootstrap.rank));
+}
+
 /**
  * new_request
  * Creates a new Message::Request packet
@@ -76,7 +90,7 @@ Request_t *get_packet(hxhim_t *hx,
                                  predicate.data(), predicate.size());
 
     hash.end = ::Stats::now();
-    if (rs_id < 0) {
+    if (!reachable(hx, rs_id)) {
         return nullptr;
     }
 
@@ -165,7 +179,7 @@ int hxhim::PutImpl(hxhim_t *hx,
                                      pred->data(), pred->size());
 
         hash.end = ::Stats::now();
-        if (rs_id < 0) {
+        if (!reachable(hx, rs_id)) {
             return HXHIM_ERROR;
         }
 
@@ -306,7 +320,7 @@ int hxhim::DeleteImpl(hxhim_t *hx,
  *
  * @param hx      the HXHIM session
  * @param hists   the queue to place the HISTOGRAM in
- * @param rs_id   the range server id - value checked by caller
+ * @param rs_id   the range server id
  * @return HXHIM_SUCCESS or HXHIM_ERROR
  */
 int hxhim::HistogramImpl(hxhim_t *hx,
@@ -319,7 +333,10 @@ int hxhim::HistogramImpl(hxhim_t *hx,
     hash.start = ::Stats::now();
     hash.end = ::Stats::now();
 
-    // rs_id is checked by caller
+    if (!reachable(hx, rs_id)) {
+        return HXHIM_ERROR;
+    }
+
     // name does not need to be checked here/by caller
 
     mlog(HXHIM_CLIENT_DBG, "Foreground HISTOGRAM Insert SPO into queue");
-- 
2.43.0


From 4f08b6270ff8cc3fa0b5a8eecc3564455b8c4ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:12 +0000
Subject: [PATCH 39/70] fix: refuse bulk operations that have missing data

---
 include/hxhim/private/hxhim.hpp |  3 +++
 src/hxhim/ops/BDELETE.cpp       |  6 ++++++
 src/hxhim/ops/BGET.cpp          |  6 ++++++
 src/hxhim/ops/BGETOP.cpp        |  6 ++++++
 src/hxhim/ops/BPUT.cpp          |  7 +++++++
 src/hxhim/ops/impl.cpp          | 23 +++++++++++++++++++++++
 src/hxhim/ops/single_type.cpp   | 19 +++++++++++++++++++
 7 files changed, 70 insertions(+)

diff --git a/include/hxhim/private/hxhim.hpp b/include/hxhim/private/hxhim.hpp
index 8d003a0..ffedd87 100644
--- a/include/hxhim/private/hxhim.hpp
+++ b/include/hxhim/private/hxhim.hpp
@@ -184,6 +184,9 @@ std::ostream &print_stats(hxhim_t *hx,
                           std::ostream &stream,
                           const std::string &indent = "    ");
 
+/** @description Check that every element of a bulk operation has data (optional elements can be NULL with length 0) */
+bool have_data(void **data, const std::size_t *lens, const std::size_t count, const bool optional = false);
+
 int PutImpl(hxhim_t *hx,
             Queues<Message::Request::BPut> &puts,
             Blob subject,
diff --git a/src/hxhim/ops/BDELETE.cpp b/src/hxhim/ops/BDELETE.cpp
index 95f1707..5cbcdca 100644
--- a/src/hxhim/ops/BDELETE.cpp
+++ b/src/hxhim/ops/BDELETE.cpp
@@ -25,6 +25,12 @@ int hxhim::BDelete(hxhim_t *hx,
         return HXHIM_ERROR;
     }
 
+    // every element has to be valid
+    if (!have_data(subjects, subject_lens, count) ||
+        !have_data(predicates, predicate_lens, count)) {
+        return HXHIM_ERROR;
+    }
+
     ::Stats::Chronostamp bdel;
     bdel.start = ::Stats::now();
 
diff --git a/src/hxhim/ops/BGET.cpp b/src/hxhim/ops/BGET.cpp
index 6e991e6..a0b278e 100644
--- a/src/hxhim/ops/BGET.cpp
+++ b/src/hxhim/ops/BGET.cpp
@@ -28,6 +28,12 @@ int hxhim::BGet(hxhim_t *hx,
         return HXHIM_ERROR;
     }
 
+    // every element has to be valid
+    if (!have_data(subjects, subject_lens, count) ||
+        !have_data(predicates, predicate_lens, count)) {
+        return HXHIM_ERROR;
+    }
+
     ::Stats::Chronostamp bget;
     bget.start = ::Stats::now();
 
diff --git a/src/hxhim/ops/BGETOP.cpp b/src/hxhim/ops/BGETOP.cpp
index 50c3b9e..36f5e96 100644
--- a/src/hxhim/ops/BGETOP.cpp
+++ b/src/hxhim/ops/BGETOP.cpp
@@ -31,6 +31,12 @@ int hxhim::BGetOp(hxhim_t *hx,
         return HXHIM_ERROR;
     }
 
+    // every element has to be valid
+    if (!have_data(subjects, subject_lens, count) ||
+        !have_data(predicates, predicate_lens, count, true)) {
+        return HXHIM_ERROR;
+    }
+
     ::Stats::Chronostamp bgetop;
     bgetop.start = ::Stats::now();
 
diff --git a/src/hxhim/ops/BPUT.cpp b/src/hxhim/ops/BPUT.cpp
index ef3cac2..2643b94 100644
--- a/src/hxhim/ops/BPUT.cpp
+++ b/src/hxhim/ops/BPUT.cpp
@@ -31,6 +31,13 @@ int hxhim::BPut(hxhim_t *hx,
         return HXHIM_ERROR;
     }
 
+    // every element has to be valid
+    if (!have_data(subjects, subject_lens, count) ||
+        !have_data(predicates, predicate_lens, count) ||
+        !have_data(objects, object_lens, count)) {
+        return HXHIM_ERROR;
+    }
+
     ::Stats::Chronostamp bput;
     bput.start = ::Stats::now();
 
diff --git a/src/hxhim/ops/impl.cpp b/src/hxhim/ops/impl.cpp
index f80a1de..dec1fd2 100644
--- a/src/hxhim/ops/impl.cpp
+++ b/src/hxhim/ops/impl.cpp
@@ -6,6 +6,29 @@
 #include "utils/mlog2.h"
 #include "utils/mlogfacs2.h"
 
+/**
+ * have_data
+ *
+ * @param data      the elements of a bulk operation
+ * @param lens      the lengths of the elements
+ * @param count     the number of elements
+ * @param optional  whether or not elements may be missing
+ * @return whether or not every element has data
+ */
+bool hxhim::have_data(void **data, const std::size_t *lens, const std::size_t count, const bool optional) {
+    for(std::size_t i = 0; i < count; i++) {
+        if (optional && !data[i] && !lens[i]) {
+            continue;
+        }
+
+        if (!data[i] || (!optional && !lens[i])) {
+            return false;
+        }
+    }
+
+    return true;
+}
+
 /**
  * reachable
  * The return value of the hash function can come from the user
diff --git a/src/hxhim/ops/single_type.cpp b/src/hxhim/ops/single_type.cpp
index 73b684d..db85085 100644
--- a/src/hxhim/ops/single_type.cpp
+++ b/src/hxhim/ops/single_type.cpp
@@ -20,6 +20,13 @@ int hxhim::BPutSingleType(hxhim_t *hx,
         return HXHIM_ERROR;
     }
 
+    // every element has to be valid
+    if (!have_data(subjects, subject_lens, count) ||
+        !have_data(predicates, predicate_lens, count) ||
+        !have_data(objects, object_lens, count)) {
+        return HXHIM_ERROR;
+    }
+
     ::Stats::Chronostamp bput;
     bput.start = ::Stats::now();
 
@@ -74,6 +81,12 @@ int hxhim::BGetSingleType(hxhim_t *hx,
         return HXHIM_ERROR;
     }
 
+    // every element has to be valid
+    if (!have_data(subjects, subject_lens, count) ||
+        !have_data(predicates, predicate_lens, count)) {
+        return HXHIM_ERROR;
+    }
+
     ::Stats::Chronostamp bget;
     bget.start = ::Stats::now();
 
@@ -119,6 +132,12 @@ int hxhim::BGetOpSingleType(hxhim_t *hx,
         return HXHIM_ERROR;
     }
 
+    // every element has to be valid
+    if (!have_data(subjects, subject_lens, count) ||
+        !have_data(predicates, predicate_lens, count, true)) {
+        return HXHIM_ERROR;
+    }
+
     ::Stats::Chronostamp bgetop;
     bgetop.start = ::Stats::now();
 
-- 
2.43.0


From f597be4cce2d1b34393028356ec52983cb8ba3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:20 +0000
Subject: [PATCH 40/70] fix: refuse range reads whose missing predicate has a
 length

---
 src/hxhim/ops/GETOP.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hxhim/ops/GETOP.cpp b/src/hxhim/ops/GETOP.cpp
index 9a695ae..945cb3f 100644
--- a/src/hxhim/ops/GETOP.cpp
+++ b/src/hxhim/ops/GETOP.cpp
@@ -23,7 +23,8 @@ int hxhim::GetOp(hxhim_t *hx,
                  std::size_t num_records, enum hxhim_getop_t op) {
     // NULL predicates are allowed
     if (!started(hx) ||
-        !subject     || !subject_len) {
+        !subject     || !subject_len ||
+        (!predicate && predicate_len)) {
         return HXHIM_ERROR;
     }
 
-- 
2.43.0


From a92df3b79e7950944bd3cb6515f52bde93c2b2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:52 +0000
Subject: [PATCH 41/70] fix: refuse histogram requests with a missing name

---
 src/hxhim/ops/BHISTOGRAM.cpp | 3 ++-
 src/hxhim/ops/HISTOGRAM.cpp  | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hxhim/ops/BHISTOGRAM.cpp b/src/hxhim/ops/BHISTOGRAM.cpp
index fb576ba..57fd73d 100644
--- a/src/hxhim/ops/BHISTOGRAM.cpp
+++ b/src/hxhim/ops/BHISTOGRAM.cpp
@@ -21,7 +21,8 @@ int hxhim::BHistogram(hxhim_t *hx,
     }
 
     for(std::size_t i = 0; i < count; i++) {
-        if ((rs_ids[i] < 0) ||
+        if ((!names[i] && name_lens[i]) ||
+            (rs_ids[i] < 0) ||
             (rs_ids[i] >= (int) hx->p->range_server.datastores.total)) {
             return HXHIM_ERROR;
         }
diff --git a/src/hxhim/ops/HISTOGRAM.cpp b/src/hxhim/ops/HISTOGRAM.cpp
index 1d2141c..fccdfbf 100644
--- a/src/hxhim/ops/HISTOGRAM.cpp
+++ b/src/hxhim/ops/HISTOGRAM.cpp
@@ -12,6 +12,7 @@
 int hxhim::Histogram(hxhim_t *hx, int rs_id,
                      const char *name, const std::size_t len) {
     if (!started(hx) ||
+        (!name && len) ||
         (rs_id < 0)  ||
         (rs_id >= (int) hx->p->range_server.datastores.total)) {
         return HXHIM_ERROR;
-- 
2.43.0


From 817661e859f9b5e8e0e05f1fbddd252046ed39f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:16 +0000
Subject: [PATCH 42/70] fix: report datastores that could not be changed

---
 src/hxhim/hxhim.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/hxhim/hxhim.cpp b/src/hxhim/hxhim.cpp
index 93dd77b..c7c55ac 100644
--- a/src/hxhim/hxhim.cpp
+++ b/src/hxhim/hxhim.cpp
@@ -398,9 +398,13 @@ hxhim::Results *hxhim::ChangeDatastoreName(hxhim_t *hx, const std::string &basen
                                                                 ds->ID(),
                                                                 rs_ds->postfix);
 
-        ds->Change(new_path,
-                   write_histograms,
-                   read_histograms?&hx->p->histograms.names:nullptr);
+        if (!ds->Change(new_path,
+                        write_histograms,
+                        read_histograms?&hx->p->histograms.names:nullptr)) {
+            mlog(HXHIM_CLIENT_ERR, "Failed to change datastore %d to %s", ds->ID(), new_path.c_str());
+            res->Add(hxhim::Result::init(hx, DATASTORE_ERROR));
+            continue;
+        }
 
         const ::Datastore::Datastore::Histograms *hists = nullptr;
         ds->GetHistograms(&hists);
-- 
2.43.0


From eb4f0de96a688c1ca7331be7ce27c6fd5f37b4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:25 +0000
Subject: [PATCH 43/70] fix: close the previous datastores and use their ids
 when changing the hash

---
 src/hxhim/hxhim.cpp | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/hxhim/hxhim.cpp b/src/hxhim/hxhim.cpp
index c7c55ac..cd68b8c 100644
--- a/src/hxhim/hxhim.cpp
+++ b/src/hxhim/hxhim.cpp
@@ -313,29 +313,21 @@ int hxhimClose(hxhim_t *hx) {
  * @return A list of results
  */
 hxhim::Results *hxhim::ChangeHash(hxhim_t *hx, const std::string &name, hxhim_hash_t func, void *args) {
-    if (!hxhim::started(hx)) {
+    if (!hxhim::started(hx) || !func) {
         return nullptr;
     }
 
-    hxhim::Results *res = hxhim::Sync(hx);
-
-    MPI_Barrier(hx->p->bootstrap.comm);
+    // flush with the old hash and switch to the datastores associated with the new hash
+    hxhim::Results *res = hxhim::ChangeDatastoreName(hx, name,
+                                                     hx->p->histograms.write,
+                                                     hx->p->histograms.read,
+                                                     true);
 
     // change hashes
+    hx->p->hash.name = name;
     hx->p->hash.func = func;
     hx->p->hash.args = args;
 
-    for(std::size_t i = 0; i < hx->p->range_server.datastores.ds.size(); i++) {
-        // change datastores
-        std::stringstream s;
-        s << name << "-" << Datastore::get_id(hx->p->bootstrap.rank,
-                                              hx->p->bootstrap.size,
-                                              hx->p->range_server.client_ratio,
-                                              hx->p->range_server.server_ratio,
-                                              i);
-        hx->p->range_server.datastores.ds[i]->Open(s.str());
-    }
-
     MPI_Barrier(hx->p->bootstrap.comm);
 
     return res;
-- 
2.43.0


From 98594eb8bf6e9ddb6cdb0e45b5462c00a58b02ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:01 +0000
Subject: [PATCH 44/70] fix: report the number of operations instead of the
 number of requests

---
 src/datastore/datastore.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index fc677b5..57ec1f9 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -378,7 +378,10 @@ int Datastore::Datastore::GetStats(uint64_t *put_time,
     }
 
     if (num_put) {
-        *num_put = stats.puts.size();
+        *num_put = 0;
+        for(Stats::Event const &event : stats.puts) {
+            *num_put += event.count;
+        }
     }
 
     if (get_time) {
@@ -389,7 +392,10 @@ int Datastore::Datastore::GetStats(uint64_t *put_time,
     }
 
     if (num_get) {
-        *num_get = stats.gets.size();
+        *num_get = 0;
+        for(Stats::Event const &event : stats.gets) {
+            *num_get += event.count;
+        }
     }
 
     return DATASTORE_SUCCESS;
-- 
2.43.0


From c0035115a11d7dc7e47f911b6a12fe50e7ccc31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:09 +0000
Subject: [PATCH 45/70] fix: do not read past the list of units

---
 src/datastore/datastore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index 57ec1f9..d3b9ee1 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -33,7 +33,7 @@ static std::string hr_size(const std::size_t size, const long double time) {
     static const std::size_t UNIT_COUNT = sizeof(UNITS) / sizeof(char *);
 
     std::size_t i = 0;
-    while ((i < UNIT_COUNT) && ((rate / 1024) > 1)) {
+    while (((i + 1) < UNIT_COUNT) && ((rate / 1024) > 1)) {
         rate /= 1024;
         i++;
     }
-- 
2.43.0


From 7f87ffcc24a18337e2e06b51144428bff9bf31d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:25 +0000
Subject: [PATCH 46/70] fix: do not lose requests for different datastores of
 one rank

---
 include/hxhim/private/process.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/hxhim/private/process.hpp b/include/hxhim/private/process.hpp
index d23723a..b30a8a2 100644
--- a/include/hxhim/private/process.hpp
+++ b/include/hxhim/private/process.hpp
@@ -55,6 +55,12 @@ hxhim::Results *process(hxhim_t *hx,
                 continue;
             }
 
+            // only one request can be sent to each rank at a time
+            // the rest of the datastores on the rank wait for the next iteration
+            if (remote.find(hx->p->queues.ds_to_rank[ds]) != remote.end()) {
+                continue;
+            }
+
             Request_t *req = queues[ds].front();
             queues[ds].pop_front();
 
-- 
2.43.0


From 9cac6b559a80b2ef21621fad43b0c67fee3f5859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:39 +0000
Subject: [PATCH 47/70] fix: address MPI endpoints by rank

---
 include/transport/backend/MPI/EndpointGroup.tpp | 3 ++-
 src/transport/backend/MPI/Init.cpp              | 9 ++-------
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/transport/backend/MPI/EndpointGroup.tpp b/include/transport/backend/MPI/EndpointGroup.tpp
index b7a53c7..5616c62 100644
--- a/include/transport/backend/MPI/EndpointGroup.tpp
+++ b/include/transport/backend/MPI/EndpointGroup.tpp
@@ -41,7 +41,8 @@ std::size_t Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &
         mlog(MPI_DBG, "Attempting to pack message (type %s, size %zu, %d -> %d)", HXHIM_OP_STR[msg->op], msg->size(), msg->src, msg->dst);
 
         if (Message::Packer::pack(msg, &bufs[pack_count], &lens[pack_count]) == TRANSPORT_SUCCESS) {
-            dsts[pack_count] = msg->dst;
+            // messages are addressed by rank - msg->dst is a datastore
+            dsts[pack_count] = message.first;
             pack_count++;
             mlog(MPI_DBG, "Successfully packed message (type %s, size %zu, %d -> %d)", HXHIM_OP_STR[msg->op], msg->size(), msg->src, msg->dst);
         }
diff --git a/src/transport/backend/MPI/Init.cpp b/src/transport/backend/MPI/Init.cpp
index a5a0420..b54d03b 100644
--- a/src/transport/backend/MPI/Init.cpp
+++ b/src/transport/backend/MPI/Init.cpp
@@ -35,21 +35,16 @@ Transport::Transport *Transport::MPI::init(hxhim_t *hx,
     EndpointGroup *eg = construct<EndpointGroup>(hx->p->bootstrap.comm,
                                                  hx->p->running);
 
-    // logical
-    int rs_id = 0;
-
-    // create mapping between logical IDs and endpoint ranks
+    // messages are sent to ranks, so the ranks are the IDs
     for(int i = 0; i < hx->p->bootstrap.size; i++) {
         if (hxhim::RangeServer::is_range_server(i, hx->p->bootstrap.size, client_ratio, server_ratio)) {
             if (hx->p->bootstrap.rank != i) { // skip adding the local range server
                 // if the rank was specified as part of the endpoint
                 // group, add the rank to the endpoint group
                 if (endpointgroup.find(i) != endpointgroup.end()) {
-                    eg->AddID(rs_id, i);
+                    eg->AddID(i, i);
                 }
             }
-
-            rs_id++;
         }
     }
 
-- 
2.43.0


From 7e78743d33aa9ef88c3111d63ca464a61bc1a9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:52 +0000
Subject: [PATCH 48/70] fix: destroy the messages handled by MPI range servers

---
 src/transport/backend/MPI/RangeServer.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/transport/backend/MPI/RangeServer.cpp b/src/transport/backend/MPI/RangeServer.cpp
index 6676fc7..f05f1f9 100644
--- a/src/transport/backend/MPI/RangeServer.cpp
+++ b/src/transport/backend/MPI/RangeServer.cpp
@@ -53,21 +53,30 @@ void RangeServer::listener_thread() {
 
         // decode request
         Message::Request::Request *request = nullptr;
-        Message::Unpacker::unpack(&request, req, len);
+        const int unpacked = Message::Unpacker::unpack(&request, req, len);
         dealloc(req);
+        if (unpacked != MESSAGE_SUCCESS) {
+            continue;
+        }
 
         // process request
         Message::Response::Response *response = local::range_server(hx, request);
-        dealloc(request);
+        destruct(request);
+        if (!response) {
+            continue;
+        }
 
         // encode result
         void *res = nullptr;
         len = 0;
-        Message::Packer::pack(response, &res, &len);
+        if (Message::Packer::pack(response, &res, &len) != MESSAGE_SUCCESS) {
+            destruct(response);
+            continue;
+        }
 
         // send result
         const int ret = send(response->dst, res, len);
-        dealloc(response);
+        destruct(response);
         dealloc(res);
 
         if (ret != TRANSPORT_SUCCESS) {
-- 
2.43.0


From 3aa2f38141f6712835d31ef7fd816c6571c5a272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:35 +0000
Subject: [PATCH 49/70] fix: send packed messages

---
 include/transport/backend/MPI/EndpointGroup.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/transport/backend/MPI/EndpointGroup.tpp b/include/transport/backend/MPI/EndpointGroup.tpp
index 5616c62..b24c11a 100644
--- a/include/transport/backend/MPI/EndpointGroup.tpp
+++ b/include/transport/backend/MPI/EndpointGroup.tpp
@@ -40,7 +40,7 @@ std::size_t Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &
 
         mlog(MPI_DBG, "Attempting to pack message (type %s, size %zu, %d -> %d)", HXHIM_OP_STR[msg->op], msg->size(), msg->src, msg->dst);
 
-        if (Message::Packer::pack(msg, &bufs[pack_count], &lens[pack_count]) == TRANSPORT_SUCCESS) {
+        if (Message::Packer::pack(msg, &bufs[pack_count], &lens[pack_count]) == MESSAGE_SUCCESS) {
             // messages are addressed by rank - msg->dst is a datastore
             dsts[pack_count] = message.first;
             pack_count++;
@@ -313,7 +313,7 @@ std::size_t Transport::MPI::EndpointGroup::parallel_recv(const std::size_t nsrcs
     std::size_t valid = 0;
     *messages = alloc_array<Recv_t *>(data_req_count);
     for(std::size_t i = 0; i < data_req_count; i++) {
-        if (Message::Unpacker::unpack(&((*messages)[valid]), recvbufs[i], lens[i]) == TRANSPORT_SUCCESS) {
+        if (Message::Unpacker::unpack(&((*messages)[valid]), recvbufs[i], lens[i]) == MESSAGE_SUCCESS) {
             valid++;
         }
 
-- 
2.43.0


From b905cf24333d7a994fbc310e30663560205c3bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:47 +0000
Subject: [PATCH 50/70] fix: only exchange one set of messages at a time over
 MPI

---
 include/transport/backend/MPI/EndpointGroup.hpp | 4 ++++
 include/transport/backend/MPI/EndpointGroup.tpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/transport/backend/MPI/EndpointGroup.hpp b/include/transport/backend/MPI/EndpointGroup.hpp
index 9977d02..d033c89 100644
--- a/include/transport/backend/MPI/EndpointGroup.hpp
+++ b/include/transport/backend/MPI/EndpointGroup.hpp
@@ -2,6 +2,7 @@
 #define TRANSPORT_MPI_ENDPOINT_GROUP_HPP
 
 #include <atomic>
+#include <mutex>
 #include <unordered_map>
 
 #include <mpi.h>
@@ -70,6 +71,9 @@ class EndpointGroup : virtual public ::Transport::EndpointGroup, virtual public
         std::size_t *lens; // buffer lengths
         int *dsts;         // request destination servers
         int *srvs;         // response source servers
+
+        /** Allow only one exchange of messages at a time */
+        std::mutex mutex;
 };
 
 }
diff --git a/include/transport/backend/MPI/EndpointGroup.tpp b/include/transport/backend/MPI/EndpointGroup.tpp
index b24c11a..67c7079 100644
--- a/include/transport/backend/MPI/EndpointGroup.tpp
+++ b/include/transport/backend/MPI/EndpointGroup.tpp
@@ -337,6 +337,10 @@ template<typename Recv_t, typename Send_t, typename>
 Recv_t *Transport::MPI::EndpointGroup::return_msgs(const ReqList<Send_t> &messages) {
     mlog(MPI_DBG, "Maximum number of messages: %zu", messages.size());
 
+    // the background PUT thread and the caller can both be sending, but
+    // responses do not identify the requests they are responding to
+    std::lock_guard<std::mutex> lock(mutex);
+
     // return value here is not useful
     const std::size_t sent = parallel_send(messages);
 
-- 
2.43.0


From e6bf78f9a5ebbae088b9bbfdae7d3f204dd40d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:20 +0000
Subject: [PATCH 51/70] fix: serve other ranks until all of them have stopped

---
 .../transport/backend/MPI/EndpointGroup.hpp   |  6 +----
 .../transport/backend/MPI/EndpointGroup.tpp   |  6 ++---
 include/transport/backend/MPI/RangeServer.hpp |  2 ++
 src/hxhim/hxhim.cpp                           |  4 ++-
 src/transport/backend/MPI/EndpointGroup.cpp   |  4 +--
 src/transport/backend/MPI/Init.cpp            |  3 +--
 src/transport/backend/MPI/RangeServer.cpp     | 26 ++++++++++++-------
 7 files changed, 28 insertions(+), 23 deletions(-)

diff --git a/include/transport/backend/MPI/EndpointGroup.hpp b/include/transport/backend/MPI/EndpointGroup.hpp
index d033c89..2363b3d 100644
--- a/include/transport/backend/MPI/EndpointGroup.hpp
+++ b/include/transport/backend/MPI/EndpointGroup.hpp
@@ -1,7 +1,6 @@
 #ifndef TRANSPORT_MPI_ENDPOINT_GROUP_HPP
 #define TRANSPORT_MPI_ENDPOINT_GROUP_HPP
 
-#include <atomic>
 #include <mutex>
 #include <unordered_map>
 
@@ -22,8 +21,7 @@ namespace MPI {
  */
 class EndpointGroup : virtual public ::Transport::EndpointGroup, virtual public EndpointBase {
     public:
-        EndpointGroup(const MPI_Comm comm,
-                      volatile std::atomic_bool &running);
+        EndpointGroup(const MPI_Comm comm);
 
         ~EndpointGroup();
 
@@ -64,8 +62,6 @@ class EndpointGroup : virtual public ::Transport::EndpointGroup, virtual public
         /** @description Mapping from unique ids to MPI ranks */
         std::unordered_map<int, int> ranks;
 
-        volatile std::atomic_bool &running;
-
         /** Memory that is only allocated once during the lifetime of EndpointGroup
             and is only used by one function at a time */
         std::size_t *lens; // buffer lengths
diff --git a/include/transport/backend/MPI/EndpointGroup.tpp b/include/transport/backend/MPI/EndpointGroup.tpp
index 67c7079..a6b36fa 100644
--- a/include/transport/backend/MPI/EndpointGroup.tpp
+++ b/include/transport/backend/MPI/EndpointGroup.tpp
@@ -106,7 +106,7 @@ std::size_t Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &
     MPI_Comm_rank(comm, &rank);
     const std::size_t total_msgs = size_count + data_count;
     std::size_t done = 0;
-    while (running && (done != total_msgs)) {
+    while (done != total_msgs) {
         for(std::size_t i = 0; i < size_count; i++) {
             if (!size_reqs[i]) {
                 continue;
@@ -217,7 +217,7 @@ std::size_t Transport::MPI::EndpointGroup::parallel_recv(const std::size_t nsrcs
     mlog(MPI_DBG, "Waiting for size to be received");
 
     std::size_t done = 0;
-    while (running && (done != size_req_count)) {
+    while (done != size_req_count) {
         for(std::size_t i = 0; i < size_req_count; i++) {
             // if there is a request
             if (reqs[i]) {
@@ -278,7 +278,7 @@ std::size_t Transport::MPI::EndpointGroup::parallel_recv(const std::size_t nsrcs
     mlog(MPI_DBG, "Waiting for data to be received");
 
     done = 0;
-    while (running && (done != data_req_count)) {
+    while (done != data_req_count) {
         for(std::size_t i = 0; i < data_req_count; i++) {
             if (!reqs[i]) {
                 continue;
diff --git a/include/transport/backend/MPI/RangeServer.hpp b/include/transport/backend/MPI/RangeServer.hpp
index 1d179d9..504fea6 100644
--- a/include/transport/backend/MPI/RangeServer.hpp
+++ b/include/transport/backend/MPI/RangeServer.hpp
@@ -1,6 +1,7 @@
 #ifndef TRANSPORT_MPI_RANGE_SERVER_HPP
 #define TRANSPORT_MPI_RANGE_SERVER_HPP
 
+#include <atomic>
 #include <thread>
 #include <vector>
 
@@ -31,6 +32,7 @@ class RangeServer : virtual public ::Transport::RangeServer {
         int Flush(MPI_Request &req, MPI_Status &status);
 
         hxhim_t *hx;
+        std::atomic_bool running;
         std::vector<std::thread> listeners;
 };
 
diff --git a/src/hxhim/hxhim.cpp b/src/hxhim/hxhim.cpp
index cd68b8c..f523936 100644
--- a/src/hxhim/hxhim.cpp
+++ b/src/hxhim/hxhim.cpp
@@ -258,12 +258,14 @@ int hxhim::Close(hxhim_t *hx) {
     Results::Destroy(hxhim::Sync(hx));
     mlog(HXHIM_CLIENT_DBG, "Rank %d Closing HXHIM", rank);
 
+    destroy::async_puts(hx); // complete existing processing and prevent new processing
+
     // make sure all ranks are ready to stop
+    // nothing is sent to this rank's range server after this
     if (comm != MPI_COMM_NULL) {
         MPI_Barrier(comm);
     }
 
-    destroy::async_puts(hx); // complete existing processing and prevent new processing
     destroy::hash(hx);       // prevent new work from hashing properly
     destroy::queues(hx);     // clear queued work
     destroy::transport(hx);  // prevent work from getting into transport
diff --git a/src/transport/backend/MPI/EndpointGroup.cpp b/src/transport/backend/MPI/EndpointGroup.cpp
index 15f68b8..7c07e72 100644
--- a/src/transport/backend/MPI/EndpointGroup.cpp
+++ b/src/transport/backend/MPI/EndpointGroup.cpp
@@ -6,12 +6,10 @@
 namespace Transport {
 namespace MPI {
 
-EndpointGroup::EndpointGroup(const MPI_Comm comm,
-                             volatile std::atomic_bool &running)
+EndpointGroup::EndpointGroup(const MPI_Comm comm)
   : ::Transport::EndpointGroup(),
     EndpointBase(comm),
     ranks(),
-    running(running),
     lens(new std::size_t[size]),
     dsts(new int[size]),
     srvs(new int[size])
diff --git a/src/transport/backend/MPI/Init.cpp b/src/transport/backend/MPI/Init.cpp
index b54d03b..d1c8e05 100644
--- a/src/transport/backend/MPI/Init.cpp
+++ b/src/transport/backend/MPI/Init.cpp
@@ -32,8 +32,7 @@ Transport::Transport *Transport::MPI::init(hxhim_t *hx,
         mlog(MPI_INFO, "Created MPI Range Server on rank %d", hx->p->bootstrap.rank);
     }
 
-    EndpointGroup *eg = construct<EndpointGroup>(hx->p->bootstrap.comm,
-                                                 hx->p->running);
+    EndpointGroup *eg = construct<EndpointGroup>(hx->p->bootstrap.comm);
 
     // messages are sent to ranks, so the ranks are the IDs
     for(int i = 0; i < hx->p->bootstrap.size; i++) {
diff --git a/src/transport/backend/MPI/RangeServer.cpp b/src/transport/backend/MPI/RangeServer.cpp
index f05f1f9..85430f6 100644
--- a/src/transport/backend/MPI/RangeServer.cpp
+++ b/src/transport/backend/MPI/RangeServer.cpp
@@ -12,6 +12,7 @@ namespace MPI {
 
 RangeServer::RangeServer(hxhim_t *hx, const std::size_t listener_count)
     : hx(hx),
+      running(true),
       listeners(listener_count)
 {
     mlog(MPI_INFO, "Started MPI Range Server Initialization");
@@ -28,6 +29,7 @@ RangeServer::RangeServer(hxhim_t *hx, const std::size_t listener_count)
 
 RangeServer::~RangeServer() {
     mlog(MPI_INFO, "Stopping MPI Range Server");
+    running = false;
     mlog(MPI_DBG, "Waiting for MPI Range Server threads");
     for(std::size_t i = 0; i < listeners.size(); i++) {
         listeners[i].join();
@@ -43,7 +45,7 @@ RangeServer::~RangeServer() {
 void RangeServer::listener_thread() {
     //Mlog statements could cause a deadlock on range_server_stop due to canceling of threads
     mlog(MPI_INFO, "MPI Range Server Thread Started");
-    while (hx->p->running){
+    while (running){
         // wait for request
         void *req = nullptr;
         std::size_t len = 0;
@@ -121,6 +123,8 @@ int RangeServer::recv(void **data, std::size_t *len) {
     if ((MPI_Irecv(*data, *len, MPI_CHAR, status.MPI_SOURCE, TRANSPORT_MPI_DATA_REQUEST_TAG, hx->p->bootstrap.comm, &request) != MPI_SUCCESS) ||
         (Flush(request) != TRANSPORT_SUCCESS)) {
         // mlog(MPI_ERR, "MPI_Range Server errored while getting data of size %zu", *len);
+        dealloc(*data);
+        *data = nullptr;
         return TRANSPORT_ERROR;
     }
 
@@ -164,14 +168,14 @@ int RangeServer::send(const int dst, void *data, const std::size_t len) {
  * Flush
  * Tests a request until it is completed.
  * This function can exit early if the
- * HXHIM instance stops first.
+ * range server stops first.
  *
  * @param req the request to test
  * @return TRANSPORT_SUCCESS or TRANSPORT_ERROR on error
  */
 int RangeServer::Flush(MPI_Request &req) {
     int flag = 0;
-    while (!flag && hx->p->running) {
+    while (!flag && running) {
         MPI_Test(&req, &flag, MPI_STATUS_IGNORE);
     }
 
@@ -180,8 +184,10 @@ int RangeServer::Flush(MPI_Request &req) {
         return TRANSPORT_SUCCESS;
     }
 
-    // mlog(MPI_DBG, "MPI Range Server flush failed (flag %d, running %d)", flag, hx->p->running.load());
-    MPI_Request_free(&req);
+    // mlog(MPI_DBG, "MPI Range Server flush failed (flag %d, running %d)", flag, running.load());
+    // the buffer is not available after returning
+    MPI_Cancel(&req);
+    MPI_Wait(&req, MPI_STATUS_IGNORE);
     return TRANSPORT_ERROR;
 }
 
@@ -189,7 +195,7 @@ int RangeServer::Flush(MPI_Request &req) {
  * Flush
  * Tests a request until it is completed.
  * This function can exit early if the
- * HXHIM instance stops first.
+ * range server stops first.
  *
  * @param req    the request to test
  * @param status the status of the request
@@ -197,7 +203,7 @@ int RangeServer::Flush(MPI_Request &req) {
  */
 int RangeServer::Flush(MPI_Request &req, MPI_Status &status) {
     int flag = 0;
-    while (!flag && hx->p->running) {
+    while (!flag && running) {
         MPI_Test(&req, &flag, &status);
     }
 
@@ -206,8 +212,10 @@ int RangeServer::Flush(MPI_Request &req, MPI_Status &status) {
         return TRANSPORT_SUCCESS;
     }
 
-    // mlog(MPI_DBG, "MPI Range Server flush failed (flag %d, running %d)", flag, hx->p->running.load());
-    MPI_Request_free(&req);
+    // mlog(MPI_DBG, "MPI Range Server flush failed (flag %d, running %d)", flag, running.load());
+    // the buffer is not available after returning
+    MPI_Cancel(&req);
+    MPI_Wait(&req, MPI_STATUS_IGNORE);
     return TRANSPORT_ERROR;
 }
 
-- 
2.43.0


From c6cd9b6f18b55048eccba4d4202105ac577e64d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:34 +0000
Subject: [PATCH 52/70] fix: refuse operations on ranks that are not in the
 endpoint group

---
 src/hxhim/ops/impl.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/hxhim/ops/impl.cpp b/src/hxhim/ops/impl.cpp
index dec1fd2..692b151 100644
--- a/src/hxhim/ops/impl.cpp
+++ b/src/hxhim/ops/impl.cpp
@@ -38,9 +38,16 @@ bool hxhim::have_data(void **data, const std::size_t *lens, const std::size_t co
  * @return whether or not operations can be sent to the datastore
  */
 static bool reachable(hxhim_t *hx, const int id) {
-    return (id >= 0) && ((std::size_t) id < hx->p->queues.ds_to_rank.size()) &&
-        // only the local datastores are available when there is no transport
-        (hx->p->transport.transport || (hx->p->queues.ds_to_rank[id] == hx->p->bootstrap.rank));
+    if ((id < 0) || ((std::size_t) id >= hx->p->queues.ds_to_rank.size())) {
+        return false;
+    }
+
+    // only the local datastores are available when there is no transport
+    // and only the ranks in the endpoint group are available otherwise
+    const int rank = hx->p->queues.ds_to_rank[id];
+    return (rank == hx->p->bootstrap.rank) ||
+        (hx->p->transport.transport &&
+         (hx->p->transport.endpointgroup.find(rank) != hx->p->transport.endpointgroup.end()));
 }
 
 /**
-- 
2.43.0


From ba00813769741747f8e1c586688a87d64cba1678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:16 +0000
Subject: [PATCH 53/70] fix: do not wait forever when ranks send to each other

---
 .../transport/backend/MPI/EndpointGroup.hpp   |  36 +-
 .../transport/backend/MPI/EndpointGroup.tpp   | 385 +++++-------------
 src/transport/backend/MPI/EndpointGroup.cpp   |  11 +-
 3 files changed, 121 insertions(+), 311 deletions(-)

diff --git a/include/transport/backend/MPI/EndpointGroup.hpp b/include/transport/backend/MPI/EndpointGroup.hpp
index 2363b3d..10eb792 100644
--- a/include/transport/backend/MPI/EndpointGroup.hpp
+++ b/include/transport/backend/MPI/EndpointGroup.hpp
@@ -1,6 +1,7 @@
 #ifndef TRANSPORT_MPI_ENDPOINT_GROUP_HPP
 #define TRANSPORT_MPI_ENDPOINT_GROUP_HPP
 
+#include <list>
 #include <mutex>
 #include <unordered_map>
 
@@ -47,12 +48,33 @@ class EndpointGroup : virtual public ::Transport::EndpointGroup, virtual public
         Message::Response::BHistogram *communicate(const ReqList<Message::Request::BHistogram> &bhm_list);
 
     private:
-        /** @escription Functions that perform the actual MPI calls */
+        /** @description A request and its response, which are both sent as a size followed by data */
+        struct Exchange {
+            enum State {
+                SIZE,   // waiting for the size of the response
+                DATA,   // waiting for the response
+                SENT,   // waiting for the request to be released
+                DONE,
+            } state = SIZE;
+
+            int rank = -1;
+
+            std::size_t request_len = 0;
+            void *request = nullptr;
+            MPI_Request size_send = MPI_REQUEST_NULL;
+            MPI_Request data_send = MPI_REQUEST_NULL;
+
+            std::size_t response_len = 0;
+            void *response = nullptr;
+            MPI_Request size_recv = MPI_REQUEST_NULL;
+            MPI_Request data_recv = MPI_REQUEST_NULL;
+        };
+
+        /** @description Functions that perform the actual MPI calls */
         template <typename Send_t, typename = enable_if_t<std::is_base_of<Message::Request::Request, Send_t>::value> >
-        std::size_t parallel_send(const ReqList<Send_t> &messages);                         // send to range server
+        void parallel_send(const ReqList<Send_t> &messages, std::list<Exchange> &exchanges); // send to range servers
 
-        template <typename Recv_t, typename = enable_if_t<std::is_base_of<Message::Response::Response, Recv_t>::value> >
-        std::size_t parallel_recv(const std::size_t nsrcs, int *srcs, Recv_t ***messages);  // receive from range server
+        void parallel_recv(std::list<Exchange> &exchanges);                                  // receive from range servers
 
         template <typename Recv_t, typename Send_t,
                   typename = enable_if_t<std::is_base_of<Message::Request::Request,   Send_t>::value &&
@@ -62,12 +84,6 @@ class EndpointGroup : virtual public ::Transport::EndpointGroup, virtual public
         /** @description Mapping from unique ids to MPI ranks */
         std::unordered_map<int, int> ranks;
 
-        /** Memory that is only allocated once during the lifetime of EndpointGroup
-            and is only used by one function at a time */
-        std::size_t *lens; // buffer lengths
-        int *dsts;         // request destination servers
-        int *srvs;         // response source servers
-
         /** Allow only one exchange of messages at a time */
         std::mutex mutex;
 };
diff --git a/include/transport/backend/MPI/EndpointGroup.tpp b/include/transport/backend/MPI/EndpointGroup.tpp
index a6b36fa..fc09452 100644
--- a/include/transport/backend/MPI/EndpointGroup.tpp
+++ b/include/transport/backend/MPI/EndpointGroup.tpp
@@ -1,4 +1,3 @@
-#include <unordered_map>
 #include <vector>
 
 #include "hxhim/constants.h"
@@ -10,27 +9,16 @@
 
 /**
  * parallel_send
- * This function packs data and sends it in parallel.
- * Each array is filled so that only the first n elements (from the previous operation) are valid.
+ * This function packs data and starts sending it in parallel.
  * This function does not error. It only sends as much as possible.
  *
- * @param num_srvs the maximum number of messages there are
- * @tparm messages the array of messages to send
- * @return the number of messages successfully sent
+ * @tparm messages    the messages to send
+ * @param exchanges   the list of exchanges that were started
  */
 template <typename Send_t, typename>
-std::size_t Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &messages) {
+void Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &messages, std::list<Exchange> &exchanges) {
     mlog(MPI_DBG, "Attempting to send %zu messages", messages.size());
 
-    if (!messages.size()) {
-        mlog(MPI_ERR, "No messages to send");
-        return 0;
-    }
-
-    // pack the data
-    // packs might fail - use pack_count to keep track of successful packs
-    std::vector<void *> bufs(messages.size(), nullptr);
-    std::size_t pack_count = 0;
     for(REF(messages)::value_type const &message : messages) {
         Send_t *msg = message.second;
         if (!msg) {
@@ -38,290 +26,114 @@ std::size_t Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &
             continue;
         }
 
-        mlog(MPI_DBG, "Attempting to pack message (type %s, size %zu, %d -> %d)", HXHIM_OP_STR[msg->op], msg->size(), msg->src, msg->dst);
-
-        if (Message::Packer::pack(msg, &bufs[pack_count], &lens[pack_count]) == MESSAGE_SUCCESS) {
-            // messages are addressed by rank - msg->dst is a datastore
-            dsts[pack_count] = message.first;
-            pack_count++;
-            mlog(MPI_DBG, "Successfully packed message (type %s, size %zu, %d -> %d)", HXHIM_OP_STR[msg->op], msg->size(), msg->src, msg->dst);
-        }
-        else {
-            mlog(MPI_ERR, "Failed to pack message (type %s, size %zu, %d -> %d)", HXHIM_OP_STR[msg->op], msg->size(), msg->src, msg->dst);
-        }
-    }
-
-    mlog(MPI_DBG, "Successfully packed %zu messages", pack_count);
-
-    // send sizes and data in parallel
-    std::vector<MPI_Request *> size_reqs(pack_count);
-    std::vector<MPI_Request *> data_reqs(pack_count);
-    std::size_t size_count = 0;
-    std::size_t data_count = 0;
-
-    mlog(MPI_DBG, "Starting to send messages asynchronously");
-    for(std::size_t i = 0; i < pack_count; i++) {
-        // this is not really necessary
-        std::unordered_map<int, int>::const_iterator dst_it = ranks.find(dsts[i]);
-
+        // messages are addressed by rank - msg->dst is a datastore
+        std::unordered_map<int, int>::const_iterator dst_it = ranks.find(message.first);
         if (dst_it == ranks.end()) {
+            mlog(MPI_ERR, "Rank %d is not in the endpoint group", message.first);
             continue;
         }
 
-        // send size
-        size_reqs[size_count] = construct<MPI_Request>();
+        exchanges.emplace_back();
+        Exchange &exchange = exchanges.back();
+        exchange.rank = dst_it->second;
 
-        mlog(MPI_DBG, "Attempting to send packed message[%zu] (size %zu, %d -> %d)", i, lens[i], rank, dst_it->second);
-
-        if (MPI_Isend(&lens[i], sizeof(lens[i]), MPI_CHAR, dst_it->second, TRANSPORT_MPI_SIZE_REQUEST_TAG, comm, size_reqs[size_count]) == MPI_SUCCESS) {
-            mlog(MPI_DBG, "Successfully started sending size %zu to server %d", lens[i], dst_it->second);
-
-            size_count++;
-
-            // send data
-            data_reqs[data_count] = construct<MPI_Request>();
-            if (MPI_Isend(bufs[i], lens[i], MPI_CHAR, dst_it->second, TRANSPORT_MPI_DATA_REQUEST_TAG, comm, data_reqs[data_count]) == MPI_SUCCESS) {
-                mlog(MPI_DBG, "Successfully started data of size %zu to server %d", lens[i], dst_it->second);
-                srvs[data_count] = dst_it->second;
-                data_count++;
-            }
-            else {
-                mlog(MPI_ERR, "Errored while sending data of size %zu to server %d", lens[i], dst_it->second);
-                dealloc(data_reqs[i]);
-                data_reqs[data_count] = nullptr;
-            }
-        }
-        else {
-            mlog(MPI_ERR, "Errored while sending size %zu to server %d", lens[i], dst_it->second);
-            dealloc(size_reqs[i]);
-            size_reqs[size_count] = nullptr;
-        }
-    }
-    mlog(MPI_DBG, "Done sending messages asynchronously");
-
-    mlog(MPI_DBG, "Waiting for messages to complete");
-
-    //Wait for messages to complete
-    int rank;
-    MPI_Comm_rank(comm, &rank);
-    const std::size_t total_msgs = size_count + data_count;
-    std::size_t done = 0;
-    while (done != total_msgs) {
-        for(std::size_t i = 0; i < size_count; i++) {
-            if (!size_reqs[i]) {
-                continue;
-            }
-
-            int flag = 0;
-            MPI_Status status;
-            MPI_Test(size_reqs[i], &flag, &status);
-
-            if (flag) {
-                dealloc(size_reqs[i]);
-                size_reqs[i] = nullptr;
-                done++;
-            }
-        }
-
-        for(std::size_t i = 0; i < data_count; i++) {
-            if (!data_reqs[i]) {
-                continue;
-            }
-
-            int flag = 0;
-            MPI_Status status;
-
-            MPI_Test(data_reqs[i], &flag, &status);
-
-            if (flag) {
-                dealloc(data_reqs[i]);
-                data_reqs[i] = nullptr;
-                done++;
-            }
+        // packs might fail
+        if (Message::Packer::pack(msg, &exchange.request, &exchange.request_len) != MESSAGE_SUCCESS) {
+            mlog(MPI_ERR, "Failed to pack message (type %s, size %zu, %d -> %d)", HXHIM_OP_STR[msg->op], msg->size(), msg->src, msg->dst);
+            dealloc(exchange.request);
+            exchanges.pop_back();
+            continue;
         }
-    }
 
-    // Free any remaining requests
-    for(std::size_t i = 0; i < size_count; i++) {
-        if (size_reqs[i]) {
-            MPI_Request_free(size_reqs[i]);
-            dealloc(size_reqs[i]);
+        // send size
+        if (MPI_Isend(&exchange.request_len, sizeof(exchange.request_len), MPI_CHAR, exchange.rank,
+                      TRANSPORT_MPI_SIZE_REQUEST_TAG, comm, &exchange.size_send) != MPI_SUCCESS) {
+            mlog(MPI_ERR, "Errored while sending size %zu to server %d", exchange.request_len, exchange.rank);
+            dealloc(exchange.request);
+            exchanges.pop_back();
+            continue;
         }
-    }
 
-    for(std::size_t i = 0; i < data_count; i++) {
-        if (data_reqs[i]) {
-            MPI_Request_free(data_reqs[i]);
-            dealloc(data_reqs[i]);
+        // send data
+        if (MPI_Isend(exchange.request, exchange.request_len, MPI_CHAR, exchange.rank,
+                      TRANSPORT_MPI_DATA_REQUEST_TAG, comm, &exchange.data_send) != MPI_SUCCESS) {
+            mlog(MPI_ERR, "Errored while sending data of size %zu to server %d", exchange.request_len, exchange.rank);
+            MPI_Wait(&exchange.size_send, MPI_STATUS_IGNORE);
+            dealloc(exchange.request);
+            exchanges.pop_back();
+            continue;
         }
-    }
 
-    for(std::size_t i = 0; i < pack_count; i++) {
-        dealloc(bufs[i]);
+        mlog(MPI_DBG, "Started sending message (type %s, size %zu, %d -> %d)", HXHIM_OP_STR[msg->op], exchange.request_len, msg->src, msg->dst);
     }
-
-    mlog(MPI_DBG, "Messages completed: %zu", data_count);
-
-    return data_count;
 }
 
 /**
  * parallel_recv
- * This function receives as much data as possible.
- * Each array is fill so that only the first n elements (from the previous operation) are valid.
- * This function does not error.
+ * This function completes sending the requests and receives the responses in parallel.
+ * All of the exchanges have to make progress at the same time: a range server does not
+ * receive any more requests until its response has been received, so waiting for one
+ * range server before receiving from another can end up waiting forever.
+ * This function does not error. It only receives as much as possible.
  *
- * @param  nsrcs     the number of source range servers that are expected
- * @param  srcs      the array of source range servers
-OD * @tparam messages  A pointer to the array of messages that are received
- * @return the number of valid messages
+ * @param exchanges   the list of exchanges that were started
  */
-template <typename Recv_t, typename>
-std::size_t Transport::MPI::EndpointGroup::parallel_recv(const std::size_t nsrcs, int *srcs, Recv_t ***messages) {
-    if (!nsrcs || !srcs) {
-        mlog(MPI_DBG, "No messages to receive");
-        return 0;
-    }
-
-    if (!messages) {
-        mlog(MPI_DBG, "Nowhere to store messages");
-        return 0;
-    }
-
-    mlog(MPI_DBG, "Waiting to receive %zu messages", nsrcs);
-
-    std::vector<MPI_Request *> reqs(nsrcs);
+inline void Transport::MPI::EndpointGroup::parallel_recv(std::list<Exchange> &exchanges) {
+    mlog(MPI_DBG, "Waiting to receive %zu messages", exchanges.size());
 
-    // use reqs to receive size messages from the servers in the list
-    std::size_t size_req_count = 0;
-    for(std::size_t i = 0; i < nsrcs; i++) {
-        //this is not really necessary
-        std::unordered_map<int, int>::const_iterator src_it = ranks.find(srcs[i]);
-
-        if (src_it != ranks.end()) {
-            reqs[size_req_count] = construct<MPI_Request>();
-            if (MPI_Irecv(&lens[i], sizeof(lens[i]), MPI_CHAR,
-                          src_it->second, TRANSPORT_MPI_SIZE_RESPONSE_TAG, comm, reqs[size_req_count]) == MPI_SUCCESS) {
-                mlog(MPI_DBG, "Receiving size[%zu] from %d %d", i, src_it->second, srcs[i]);
-                size_req_count++;
-            }
-            else {
-                mlog(MPI_DBG, "Failed to start receiving size[%zu]", i);
-                dealloc(reqs[size_req_count]);
-                reqs[size_req_count] = nullptr;
-            }
+    for(Exchange &exchange : exchanges) {
+        if (MPI_Irecv(&exchange.response_len, sizeof(exchange.response_len), MPI_CHAR, exchange.rank,
+                      TRANSPORT_MPI_SIZE_RESPONSE_TAG, comm, &exchange.size_recv) != MPI_SUCCESS) {
+            mlog(MPI_ERR, "Failed to start receiving size from %d", exchange.rank);
+            exchange.state = Exchange::DATA;
         }
     }
 
-    // Wait for size messages to complete
-    mlog(MPI_DBG, "Waiting for size to be received");
-
     std::size_t done = 0;
-    while (done != size_req_count) {
-        for(std::size_t i = 0; i < size_req_count; i++) {
-            // if there is a request
-            if (reqs[i]) {
-                int flag = 0;
-                MPI_Status status;
-
-                // test the request
-                MPI_Test(reqs[i], &flag, &status);
-
-                // if the request completed, add 1
-                if (flag) {
-                    // mlog(MPI_DBG, "size received: %zu", i);
-                    dealloc(reqs[i]);
-                    reqs[i] = nullptr;
-                    done++;
-                }
-                else {
-                    // mlog(MPI_DBG, "size[%zu] not completed yet %zu", i, sizeof(lens[i]));
-                }
-            }
-        }
-    }
-
-    // Free any remaining requests
-    for(std::size_t i = 0; i < size_req_count; i++) {
-        if (reqs[i]) {
-            MPI_Request_free(reqs[i]);
-            dealloc(reqs[i]);
-        }
-    }
-
-    mlog(MPI_DBG, "Received %zu sizes", done);
-
-    // reuse reqs to receive data messages from the servers
-    std::size_t data_req_count = 0;
-    std::vector<void *> recvbufs(size_req_count);
-    for(std::size_t i = 0; i < size_req_count; i++) {
-        std::unordered_map<int, int>::const_iterator src_it = ranks.find(srcs[i]);
-        if (src_it != ranks.end()) {
-            // Receive a message from the servers in the list
-            reqs[data_req_count] = construct<MPI_Request>();
-            recvbufs[data_req_count] = alloc(lens[i]);
-            if (MPI_Irecv(recvbufs[data_req_count], lens[i], MPI_CHAR,
-                          src_it->second, TRANSPORT_MPI_DATA_RESPONSE_TAG, comm, reqs[data_req_count]) == MPI_SUCCESS) {
-                data_req_count++;
-            }
-            else {
-                dealloc(reqs[data_req_count]);
-                reqs[data_req_count] = nullptr;
-                dealloc(recvbufs[data_req_count]);
-            }
-        }
-    }
-
-    mlog(MPI_DBG, "Completed receiving %zu sizes", done);
-
-    // Wait for messages to complete
-    mlog(MPI_DBG, "Waiting for data to be received");
-
-    done = 0;
-    while (done != data_req_count) {
-        for(std::size_t i = 0; i < data_req_count; i++) {
-            if (!reqs[i]) {
-                continue;
-            }
-
+    while (done != exchanges.size()) {
+        for(Exchange &exchange : exchanges) {
             int flag = 0;
-            MPI_Status status;
 
-            MPI_Test(reqs[i], &flag, &status);
-
-            if (!flag) {
-                continue;
+            switch (exchange.state) {
+                case Exchange::SIZE:
+                    MPI_Test(&exchange.size_recv, &flag, MPI_STATUS_IGNORE);
+                    if (flag) {
+                        exchange.response = alloc(exchange.response_len);
+                        if (MPI_Irecv(exchange.response, exchange.response_len, MPI_CHAR, exchange.rank,
+                                      TRANSPORT_MPI_DATA_RESPONSE_TAG, comm, &exchange.data_recv) != MPI_SUCCESS) {
+                            mlog(MPI_ERR, "Failed to start receiving data from %d", exchange.rank);
+                            dealloc(exchange.response);
+                            exchange.response = nullptr;
+                        }
+                        exchange.state = Exchange::DATA;
+                    }
+                    break;
+                case Exchange::DATA:
+                    // completed and unused requests are null
+                    MPI_Test(&exchange.data_recv, &flag, MPI_STATUS_IGNORE);
+                    if (flag) {
+                        exchange.state = Exchange::SENT;
+                    }
+                    break;
+                case Exchange::SENT:
+                    MPI_Test(&exchange.size_send, &flag, MPI_STATUS_IGNORE);
+                    if (flag) {
+                        MPI_Test(&exchange.data_send, &flag, MPI_STATUS_IGNORE);
+                    }
+                    if (flag) {
+                        dealloc(exchange.request);
+                        exchange.request = nullptr;
+                        exchange.state = Exchange::DONE;
+                        done++;
+                    }
+                    break;
+                case Exchange::DONE:
+                    break;
             }
-
-            dealloc(reqs[i]);
-            reqs[i] = nullptr;
-            done++;
-        }
-    }
-
-    mlog(MPI_DBG, "Data received");
-
-    // Free any remaining requests
-    for(std::size_t i = 0; i < data_req_count; i++) {
-        if (reqs[i]) {
-            MPI_Request_free(reqs[i]);
-            dealloc(reqs[i]);
-        }
-    }
-
-    // unpack the data
-    std::size_t valid = 0;
-    *messages = alloc_array<Recv_t *>(data_req_count);
-    for(std::size_t i = 0; i < data_req_count; i++) {
-        if (Message::Unpacker::unpack(&((*messages)[valid]), recvbufs[i], lens[i]) == MESSAGE_SUCCESS) {
-            valid++;
         }
-
-        dealloc(recvbufs[i]);
     }
 
-    // return how many messages were successfully unpacked
-    return valid;
+    mlog(MPI_DBG, "Done exchanging messages");
 }
 
 /**
@@ -329,8 +141,7 @@ std::size_t Transport::MPI::EndpointGroup::parallel_recv(const std::size_t nsrcs
  * Send Transport::B* messages and waits for their responses.
  * The responses are chained together into a list.
  *
- * @param num_rangesrvs the number of range servers there are
- * @param messages      an array of messages to send
+ * @param messages      a list of messages to send
  * @treturn a linked list of return messages
  */
 template<typename Recv_t, typename Send_t, typename>
@@ -341,27 +152,17 @@ Recv_t *Transport::MPI::EndpointGroup::return_msgs(const ReqList<Send_t> &messag
     // responses do not identify the requests they are responding to
     std::lock_guard<std::mutex> lock(mutex);
 
-    // return value here is not useful
-    const std::size_t sent = parallel_send(messages);
-
-    mlog(MPI_DBG, "Sent to %zu servers:", sent);
-    for(std::size_t i = 0; i < sent; i++) {
-        mlog(MPI_DBG, "    Server %d", srvs[i]);
-    }
-
-    mlog(MPI_DBG, "Waiting for %zu responses", sent);
-
-    // wait for responses
-    Recv_t **recv_list = nullptr;
-    const std::size_t recvd = parallel_recv(sent, srvs, &recv_list);
-    mlog(MPI_DBG, "Received from %zu servers", recvd);
+    std::list<Exchange> exchanges;
+    parallel_send(messages, exchanges);
+    parallel_recv(exchanges);
 
     // convert the responses into a list
     Recv_t *head = nullptr;
     Recv_t *tail = nullptr;
-    for (std::size_t i = 0; i < recvd; i++) {
-        Recv_t *brm = dynamic_cast<Recv_t *>(recv_list[i]);
-        if (brm) {
+    for(Exchange &exchange : exchanges) {
+        Recv_t *brm = nullptr;
+        if (exchange.response &&
+            (Message::Unpacker::unpack(&brm, exchange.response, exchange.response_len) == MESSAGE_SUCCESS)) {
             mlog(MPI_DBG, "    Server %d", brm->src);
             //Build the linked list to return
             if (!head) {
@@ -372,9 +173,9 @@ Recv_t *Transport::MPI::EndpointGroup::return_msgs(const ReqList<Send_t> &messag
                 tail = brm;
             }
         }
-    }
 
-    dealloc_array(recv_list, recvd);
+        dealloc(exchange.response);
+    }
 
     mlog(MPI_DBG, "Completed return_msgs");
 
diff --git a/src/transport/backend/MPI/EndpointGroup.cpp b/src/transport/backend/MPI/EndpointGroup.cpp
index 7c07e72..df1ee41 100644
--- a/src/transport/backend/MPI/EndpointGroup.cpp
+++ b/src/transport/backend/MPI/EndpointGroup.cpp
@@ -9,17 +9,10 @@ namespace MPI {
 EndpointGroup::EndpointGroup(const MPI_Comm comm)
   : ::Transport::EndpointGroup(),
     EndpointBase(comm),
-    ranks(),
-    lens(new std::size_t[size]),
-    dsts(new int[size]),
-    srvs(new int[size])
+    ranks()
 {}
 
-EndpointGroup::~EndpointGroup() {
-    delete [] srvs;
-    delete [] dsts;
-    delete [] lens;
-}
+EndpointGroup::~EndpointGroup() {}
 
 /**
  * AddID
-- 
2.43.0


From 446ae55f404040f727862d5cb3498db7648c86af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:12 +0000
Subject: [PATCH 54/70] fix: count everything added to a request against
 MAXIMUM_SIZE_PER_REQUEST

---
 src/hxhim/ops/impl.cpp | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/hxhim/ops/impl.cpp b/src/hxhim/ops/impl.cpp
index 692b151..72e9664 100644
--- a/src/hxhim/ops/impl.cpp
+++ b/src/hxhim/ops/impl.cpp
@@ -92,6 +92,20 @@ Request_t *setup_packet(hxhim_t *hx, hxhim::QueueTarget<Request_t> &queue, const
     return *(queue.rbegin());
 }
 
+/**
+ * sp_size
+ * The space a subject and predicate take up in a packet
+ * that also carries their original addresses
+ *
+ * @param subject    the subject
+ * @param predicate  the predicate
+ * @return the number of bytes
+ */
+static std::size_t sp_size(const Blob &subject, const Blob &predicate) {
+    return subject.pack_size(true) + sizeof(subject.data()) +
+        predicate.pack_size(true) + sizeof(predicate.data());
+}
+
 /**
  * get_packet
  * hashes the subject + predicate and sets
@@ -103,14 +117,15 @@ Request_t *setup_packet(hxhim_t *hx, hxhim::QueueTarget<Request_t> &queue, const
  * @param queue      the queue to push into
  * @param subject    the subject to hash
  * @param predicate  the predicate to hash
- * @param insert     the insert timerstamps - only start is filled
+ * @param size       the space the data will take up in a packet
  * @return pointer to a packet with space for a new set of data
  */
 template <typename Request_t,
           typename = enable_if_t <is_child_of <Message::Request::Request, Request_t>::value> >
 Request_t *get_packet(hxhim_t *hx,
                       hxhim::Queues<Request_t> &queues,
-                      const Blob &subject, const Blob &predicate) {
+                      const Blob &subject, const Blob &predicate,
+                      const std::size_t size) {
     ::Stats::Chronostamp hash;
     hash.start = ::Stats::now();
 
@@ -129,7 +144,7 @@ Request_t *get_packet(hxhim_t *hx,
     ::Stats::Chronopoint insert_start = ::Stats::now();
 
     // set up the packet this triple should be placed into
-    Request_t *req = setup_packet(hx, queues[rs_id], subject.pack_size(true) + predicate.pack_size(true));
+    Request_t *req = setup_packet(hx, queues[rs_id], size);
     req->timestamps.reqs[req->count].hash = hash;
     req->timestamps.reqs[req->count].insert.start = insert_start;
     return req;
@@ -220,8 +235,7 @@ int hxhim::PutImpl(hxhim_t *hx,
 
         // add the triple to the last packet in the queue
         Message::Request::BPut *put = setup_packet(hx, puts[rs_id],
-                                                   sub->pack_size(true) +
-                                                   pred->pack_size(true) +
+                                                   sp_size(*sub, *pred) +
                                                    obj->pack_size(true));
         put->add(*sub, *pred, *obj);
         hx->p->queues.puts.count++; // mutex is locked by caller
@@ -258,7 +272,9 @@ int hxhim::GetImpl(hxhim_t *hx,
     mlog(HXHIM_CLIENT_DBG, "GET Start");
 
     Message::Request::BGet *get = get_packet(hx, gets,
-                                             subject, predicate);
+                                             subject, predicate,
+                                             sp_size(subject, predicate) +
+                                             sizeof(object_type));
     if (!get) {
         return HXHIM_ERROR;
     }
@@ -296,7 +312,12 @@ int hxhim::GetOpImpl(hxhim_t *hx,
     mlog(HXHIM_CLIENT_DBG, "GETOP Start");
 
     Message::Request::BGetOp *getop = get_packet(hx, getops,
-                                                 subject, predicate);
+                                                 subject, predicate,
+                                                 subject.pack_size(true) +
+                                                 predicate.pack_size(true) +
+                                                 sizeof(object_type) +
+                                                 sizeof(num_records) +
+                                                 sizeof(op));
     if (!getop) {
         return HXHIM_ERROR;
     }
@@ -328,7 +349,8 @@ int hxhim::DeleteImpl(hxhim_t *hx,
     mlog(HXHIM_CLIENT_DBG, "DELETE Start");
 
     Message::Request::BDelete *del = get_packet(hx, dels,
-                                                subject, predicate);
+                                                subject, predicate,
+                                                sp_size(subject, predicate));
     if (!del) {
         return HXHIM_ERROR;
     }
-- 
2.43.0


From 5b5184a66de6c1dcfc5593304c9cb650630b5056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:49 +0000
Subject: [PATCH 55/70] fix: give errors from Open values that are not
 HXHIM_SUCCESS

---
 include/hxhim/constants.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/hxhim/constants.h b/include/hxhim/constants.h
index 724c6bd..1cd6d2f 100644
--- a/include/hxhim/constants.h
+++ b/include/hxhim/constants.h
@@ -36,7 +36,9 @@ extern "C"
 
 #define HXHIM_OPEN_ERROR_PREFIX HXHIM_OPEN_ERROR
 
+/* HXHIM_OPEN_ERROR_STR is indexed by (value - HXHIM_OPEN_ERROR_START - 1) */
 enum hxhim_open_t {
+    HXHIM_OPEN_ERROR_START = HXHIM_ERROR, /* no error can be mistaken for HXHIM_SUCCESS */
     HXHIM_OPEN_ERROR_GEN(HXHIM_OPEN_ERROR_PREFIX, GENERATE_ENUM)
 };
 
-- 
2.43.0


From 4fa723646108a756f969168542cbc58e62c66e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:51 +0000
Subject: [PATCH 56/70] fix: queue either all permutations of a PUT or none of
 them

---
 src/hxhim/ops/impl.cpp | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/hxhim/ops/impl.cpp b/src/hxhim/ops/impl.cpp
index 72e9664..94fbbaf 100644
--- a/src/hxhim/ops/impl.cpp
+++ b/src/hxhim/ops/impl.cpp
@@ -1,3 +1,5 @@
+#include <vector>
+
 #include "hxhim/private/hxhim.hpp"
 #include "utils/Blob.hpp"
 #include "utils/Stats.hpp"
@@ -171,6 +173,18 @@ int hxhim::PutImpl(hxhim_t *hx,
                    const hxhim_put_permutation_t permutations) {
     mlog(HXHIM_CLIENT_INFO, "Foreground PUT Start (%p, %p, %p)", subject.data(), predicate.data(), object.data());
 
+    // where each permutation goes
+    struct Destination {
+        Blob *sub;
+        Blob *pred;
+        Blob *obj;
+        int rs_id;
+        ::Stats::Chronostamp hash;
+    };
+    std::vector<Destination> dsts;
+
+    // find all of the destinations first so that either
+    // all of the permutations or none of them are queued
     for(std::size_t i = 0; i < HXHIM_PUT_PERMUTATIONS_COUNT; i++) {
         if (!(permutations & HXHIM_PUT_PERMUTATIONS[i])) {
             continue;
@@ -228,19 +242,23 @@ int hxhim::PutImpl(hxhim_t *hx,
             return HXHIM_ERROR;
         }
 
+        dsts.push_back({sub, pred, obj, rs_id, hash});
+    }
+
+    for(Destination const &dst : dsts) {
         mlog(HXHIM_CLIENT_DBG, "Foreground PUT Insert SPO into queue");
 
         ::Stats::Chronostamp insert;
         insert.start = ::Stats::now();
 
         // add the triple to the last packet in the queue
-        Message::Request::BPut *put = setup_packet(hx, puts[rs_id],
-                                                   sp_size(*sub, *pred) +
-                                                   obj->pack_size(true));
-        put->add(*sub, *pred, *obj);
+        Message::Request::BPut *put = setup_packet(hx, puts[dst.rs_id],
+                                                   sp_size(*dst.sub, *dst.pred) +
+                                                   dst.obj->pack_size(true));
+        put->add(*dst.sub, *dst.pred, *dst.obj);
         hx->p->queues.puts.count++; // mutex is locked by caller
 
-        put->timestamps.reqs[put->count - 1].hash = hash;
+        put->timestamps.reqs[put->count - 1].hash = dst.hash;
         put->timestamps.reqs[put->count - 1].insert = insert;
         put->timestamps.reqs[put->count - 1].insert.end = ::Stats::now();
     }
-- 
2.43.0


From 44c41e04e3e4ee23244147dab7ffb2f21867b776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:51 +0000
Subject: [PATCH 57/70] fix: report elements of bulk operations that could not
 be queued

---
 src/hxhim/ops/BDELETE.cpp     | 13 ++++++----
 src/hxhim/ops/BGET.cpp        | 15 ++++++-----
 src/hxhim/ops/BGETOP.cpp      | 17 +++++++-----
 src/hxhim/ops/BHISTOGRAM.cpp  |  7 +++--
 src/hxhim/ops/BPUT.cpp        | 17 +++++++-----
 src/hxhim/ops/single_type.cpp | 49 +++++++++++++++++++++--------------
 6 files changed, 71 insertions(+), 47 deletions(-)

diff --git a/src/hxhim/ops/BDELETE.cpp b/src/hxhim/ops/BDELETE.cpp
index 5cbcdca..de7b654 100644
--- a/src/hxhim/ops/BDELETE.cpp
+++ b/src/hxhim/ops/BDELETE.cpp
@@ -34,16 +34,19 @@ int hxhim::BDelete(hxhim_t *hx,
     ::Stats::Chronostamp bdel;
     bdel.start = ::Stats::now();
 
+    int rc = HXHIM_SUCCESS;
     for(std::size_t i = 0; i < count; i++) {
-        hxhim::DeleteImpl(hx,
-                          hx->p->queues.deletes,
-                          ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
-                          ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]));
+        if (hxhim::DeleteImpl(hx,
+                              hx->p->queues.deletes,
+                              ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
+                              ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i])) != HXHIM_SUCCESS) {
+            rc = HXHIM_ERROR;
+        }
     }
 
     bdel.end = ::Stats::now();
     hx->p->stats.bulk_op[hxhim_op_t::HXHIM_DELETE].emplace_back(bdel);
-    return HXHIM_SUCCESS;
+    return rc;
 }
 
 /**
diff --git a/src/hxhim/ops/BGET.cpp b/src/hxhim/ops/BGET.cpp
index a0b278e..0ad04d0 100644
--- a/src/hxhim/ops/BGET.cpp
+++ b/src/hxhim/ops/BGET.cpp
@@ -37,17 +37,20 @@ int hxhim::BGet(hxhim_t *hx,
     ::Stats::Chronostamp bget;
     bget.start = ::Stats::now();
 
+    int rc = HXHIM_SUCCESS;
     for(std::size_t i = 0; i < count; i++) {
-        hxhim::GetImpl(hx,
-                       hx->p->queues.gets,
-                       ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
-                       ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
-                       object_types[i]);
+        if (hxhim::GetImpl(hx,
+                           hx->p->queues.gets,
+                           ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
+                           ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
+                           object_types[i]) != HXHIM_SUCCESS) {
+            rc = HXHIM_ERROR;
+        }
     }
 
     bget.end = ::Stats::now();
     hx->p->stats.bulk_op[hxhim_op_t::HXHIM_GET].emplace_back(bget);
-    return HXHIM_SUCCESS;
+    return rc;
 }
 
 /**
diff --git a/src/hxhim/ops/BGETOP.cpp b/src/hxhim/ops/BGETOP.cpp
index 36f5e96..cf27edb 100644
--- a/src/hxhim/ops/BGETOP.cpp
+++ b/src/hxhim/ops/BGETOP.cpp
@@ -40,18 +40,21 @@ int hxhim::BGetOp(hxhim_t *hx,
     ::Stats::Chronostamp bgetop;
     bgetop.start = ::Stats::now();
 
+    int rc = HXHIM_SUCCESS;
     for(std::size_t i = 0; i < count; i++) {
-        hxhim::GetOpImpl(hx,
-                         hx->p->queues.getops,
-                         ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
-                         ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
-                         object_types[i],
-                         num_records[i], ops[i]);
+        if (hxhim::GetOpImpl(hx,
+                             hx->p->queues.getops,
+                             ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
+                             ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
+                             object_types[i],
+                             num_records[i], ops[i]) != HXHIM_SUCCESS) {
+            rc = HXHIM_ERROR;
+        }
     }
 
     bgetop.end = ::Stats::now();
     hx->p->stats.bulk_op[hxhim_op_t::HXHIM_GETOP].emplace_back(bgetop);
-    return HXHIM_SUCCESS;
+    return rc;
 }
 
 /**
diff --git a/src/hxhim/ops/BHISTOGRAM.cpp b/src/hxhim/ops/BHISTOGRAM.cpp
index 57fd73d..c13685a 100644
--- a/src/hxhim/ops/BHISTOGRAM.cpp
+++ b/src/hxhim/ops/BHISTOGRAM.cpp
@@ -36,13 +36,16 @@ int hxhim::BHistogram(hxhim_t *hx,
 
     ::Stats::Chronostamp bhist;
     bhist.start = ::Stats::now();
+    int rc = HXHIM_SUCCESS;
     for(std::size_t i = 0; i < count; i++) {
-        hxhim::HistogramImpl(hx, hx->p->queues.histograms, rs_ids[i], names[i], name_lens[i]);
+        if (hxhim::HistogramImpl(hx, hx->p->queues.histograms, rs_ids[i], names[i], name_lens[i]) != HXHIM_SUCCESS) {
+            rc = HXHIM_ERROR;
+        }
     }
 
     bhist.end = ::Stats::now();
     hx->p->stats.bulk_op[hxhim_op_t::HXHIM_HISTOGRAM].emplace_back(bhist);
-    return HXHIM_SUCCESS;
+    return rc;
 }
 
 /**
diff --git a/src/hxhim/ops/BPUT.cpp b/src/hxhim/ops/BPUT.cpp
index 2643b94..a01ea91 100644
--- a/src/hxhim/ops/BPUT.cpp
+++ b/src/hxhim/ops/BPUT.cpp
@@ -46,13 +46,16 @@ int hxhim::BPut(hxhim_t *hx,
     }
 
     // append these spo triples into the list of unsent PUTs
+    int rc = HXHIM_SUCCESS;
     for(std::size_t i = 0; i < count; i++) {
-        hxhim::PutImpl(hx,
-                       hx->p->queues.puts.queue,
-                       ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
-                       ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
-                       ReferenceBlob(objects[i], object_lens[i], object_types[i]),
-                       permutations[i]);
+        if (hxhim::PutImpl(hx,
+                           hx->p->queues.puts.queue,
+                           ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
+                           ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
+                           ReferenceBlob(objects[i], object_lens[i], object_types[i]),
+                           permutations[i]) != HXHIM_SUCCESS) {
+            rc = HXHIM_ERROR;
+        }
     }
 
     if (hx->p->async_puts.enabled) {
@@ -62,7 +65,7 @@ int hxhim::BPut(hxhim_t *hx,
 
     bput.end = ::Stats::now();
     hx->p->stats.bulk_op[hxhim_op_t::HXHIM_PUT].emplace_back(bput);
-    return HXHIM_SUCCESS;
+    return rc;
 }
 
 /**
diff --git a/src/hxhim/ops/single_type.cpp b/src/hxhim/ops/single_type.cpp
index db85085..8f029f2 100644
--- a/src/hxhim/ops/single_type.cpp
+++ b/src/hxhim/ops/single_type.cpp
@@ -34,13 +34,16 @@ int hxhim::BPutSingleType(hxhim_t *hx,
         hx->p->queues.puts.mutex.lock();
     }
 
+    int rc = HXHIM_SUCCESS;
     for(std::size_t i = 0; i < count; i++) {
-        hxhim::PutImpl(hx,
-                       hx->p->queues.puts.queue,
-                       ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
-                       ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
-                       ReferenceBlob(objects[i], object_lens[i], object_type),
-                       permutations[i]);
+        if (hxhim::PutImpl(hx,
+                           hx->p->queues.puts.queue,
+                           ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
+                           ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
+                           ReferenceBlob(objects[i], object_lens[i], object_type),
+                           permutations[i]) != HXHIM_SUCCESS) {
+            rc = HXHIM_ERROR;
+        }
     }
 
     if (hx->p->async_puts.enabled) {
@@ -51,7 +54,7 @@ int hxhim::BPutSingleType(hxhim_t *hx,
     mlog(HXHIM_CLIENT_DBG, "Completed %zu PUTs of type %d", count, object_type);
     bput.end = ::Stats::now();
     hx->p->stats.bulk_op[hxhim_op_t::HXHIM_PUT].emplace_back(bput);
-    return HXHIM_SUCCESS;
+    return rc;
 }
 
 int hxhimBPutSingleType(hxhim_t *hx,
@@ -90,19 +93,22 @@ int hxhim::BGetSingleType(hxhim_t *hx,
     ::Stats::Chronostamp bget;
     bget.start = ::Stats::now();
 
+    int rc = HXHIM_SUCCESS;
     for(std::size_t i = 0; i < count; i++) {
-        hxhim::GetImpl(hx,
-                       hx->p->queues.gets,
-                       ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
-                       ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
-                       object_type);
+        if (hxhim::GetImpl(hx,
+                           hx->p->queues.gets,
+                           ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
+                           ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
+                           object_type) != HXHIM_SUCCESS) {
+            rc = HXHIM_ERROR;
+        }
     }
 
     mlog(HXHIM_CLIENT_DBG, "Completed %zu GETs of type %d", count, object_type);
 
     bget.end = ::Stats::now();
     hx->p->stats.bulk_op[hxhim_op_t::HXHIM_GET].emplace_back(bget);
-    return HXHIM_SUCCESS;
+    return rc;
 }
 
 int hxhimBGetSingleType(hxhim_t *hx,
@@ -141,20 +147,23 @@ int hxhim::BGetOpSingleType(hxhim_t *hx,
     ::Stats::Chronostamp bgetop;
     bgetop.start = ::Stats::now();
 
+    int rc = HXHIM_SUCCESS;
     for(std::size_t i = 0; i < count; i++) {
-        hxhim::GetOpImpl(hx,
-                         hx->p->queues.getops,
-                         ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
-                         ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
-                         object_type,
-                         num_records[i], ops[i]);
+        if (hxhim::GetOpImpl(hx,
+                             hx->p->queues.getops,
+                             ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
+                             ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
+                             object_type,
+                             num_records[i], ops[i]) != HXHIM_SUCCESS) {
+            rc = HXHIM_ERROR;
+        }
     }
 
     mlog(HXHIM_CLIENT_DBG, "Completed %zu GETs of type %d", count, object_type);
 
     bgetop.end = ::Stats::now();
     hx->p->stats.bulk_op[hxhim_op_t::HXHIM_GETOP].emplace_back(bgetop);
-    return HXHIM_SUCCESS;
+    return rc;
 }
 
 int hxhimBGetOpSingleType(hxhim_t *hx,
-- 
2.43.0


From 0651a51e8e860fe141a91ee79eb4efbd24ab32f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:01 +0000
Subject: [PATCH 58/70] fix: selecting the MPI transport without NUM_LISTENERS
 had no effect

---
 src/hxhim/config.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hxhim/config.cpp b/src/hxhim/config.cpp
index 46ca084..6bd7d14 100644
--- a/src/hxhim/config.cpp
+++ b/src/hxhim/config.cpp
@@ -201,8 +201,8 @@ static bool parse_transport(hxhim_t *hx, const Config::Config &config) {
                 break;
             case Transport::TRANSPORT_MPI:
                 {
-                    std::size_t listeners;
-                    if (Config::get_value(config, hxhim::config::MPI_LISTENERS, listeners) != Config::FOUND) {
+                    std::size_t listeners = 1; // default to 1; do not error if not found
+                    if (Config::get_value(config, hxhim::config::MPI_LISTENERS, listeners) == Config::ERROR) {
                         return false;
                     }
 
-- 
2.43.0


From 39395dc5ffa423fe04abea0c8112012c7b45cd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:18 +0000
Subject: [PATCH 59/70] fix: keep the timestamps of operations performed by a
 range server

The responses of the datastores are moved one element at a time into the
response of the range server, and moving an element does not move its
timestamps, so the results of local operations had empty timestamps.
---
 include/transport/backend/local/RangeServer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/transport/backend/local/RangeServer.hpp b/include/transport/backend/local/RangeServer.hpp
index daf465a..176f5ed 100644
--- a/include/transport/backend/local/RangeServer.hpp
+++ b/include/transport/backend/local/RangeServer.hpp
@@ -56,11 +56,11 @@ Response_t *range_server(hxhim_t *hx, Request_t *req) {
     // if there were responses, copy them into the output variable
     if (response) {
         for(std::size_t i = 0; i < response->count; i++) {
-            // move timestamps over to response (responses should correspond to requests)
-            response->timestamps.reqs[i] = std::move(req->timestamps.reqs[i]);
-
             // move the datastore response to the main response
             res->steal(response, i);
+
+            // move timestamps over to response (responses should correspond to requests)
+            res->timestamps.reqs[i] = std::move(req->timestamps.reqs[i]);
         }
 
         response->count = 0;
-- 
2.43.0


From 78f74fd230b1aaae0c49dfff3f0cd5c994bc3455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:30 +0000
Subject: [PATCH 60/70] fix: return the timestamps of requests sent with MPI

Timestamps are not part of packed messages. As in the Thallium transport,
they have to be taken from the request when its response has arrived.
---
 include/transport/backend/MPI/EndpointGroup.hpp | 2 ++
 include/transport/backend/MPI/EndpointGroup.tpp | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/include/transport/backend/MPI/EndpointGroup.hpp b/include/transport/backend/MPI/EndpointGroup.hpp
index 10eb792..fdc38d8 100644
--- a/include/transport/backend/MPI/EndpointGroup.hpp
+++ b/include/transport/backend/MPI/EndpointGroup.hpp
@@ -59,6 +59,8 @@ class EndpointGroup : virtual public ::Transport::EndpointGroup, virtual public
 
             int rank = -1;
 
+            Message::Message *message = nullptr; // not owned
+
             std::size_t request_len = 0;
             void *request = nullptr;
             MPI_Request size_send = MPI_REQUEST_NULL;
diff --git a/include/transport/backend/MPI/EndpointGroup.tpp b/include/transport/backend/MPI/EndpointGroup.tpp
index fc09452..17119b6 100644
--- a/include/transport/backend/MPI/EndpointGroup.tpp
+++ b/include/transport/backend/MPI/EndpointGroup.tpp
@@ -36,6 +36,7 @@ void Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &message
         exchanges.emplace_back();
         Exchange &exchange = exchanges.back();
         exchange.rank = dst_it->second;
+        exchange.message = msg;
 
         // packs might fail
         if (Message::Packer::pack(msg, &exchange.request, &exchange.request_len) != MESSAGE_SUCCESS) {
@@ -164,6 +165,10 @@ Recv_t *Transport::MPI::EndpointGroup::return_msgs(const ReqList<Send_t> &messag
         if (exchange.response &&
             (Message::Unpacker::unpack(&brm, exchange.response, exchange.response_len) == MESSAGE_SUCCESS)) {
             mlog(MPI_DBG, "    Server %d", brm->src);
+
+            // timestamps are not sent
+            brm->steal_timestamps(exchange.message, true);
+
             //Build the linked list to return
             if (!head) {
                 head = brm;
-- 
2.43.0


From b5a0ea2e909f70deee2c34c049814b220df27499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:57 +0000
Subject: [PATCH 61/70] fix: a HISTOGRAM response is a copy, not the histogram
 the datastore keeps changing

---
 src/datastore/datastore.cpp | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index d3b9ee1..c906d81 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -200,6 +200,28 @@ Message::Response::BDelete *Datastore::Datastore::operate(Message::Request::BDel
     return Usable()?BDeleteImpl(req):unusable<Message::Response::BDelete>(req);
 }
 
+/**
+ * snapshot
+ * Copy a histogram. Responses hold copies because the
+ * datastore can add values to its histograms while the
+ * responses are being used.
+ *
+ * @param hist  the histogram to copy
+ * @return a copy of the histogram
+ */
+static Datastore::Datastore::Histogram snapshot(const ::Histogram::Histogram &hist) {
+    Datastore::Datastore::Histogram copy(construct<::Histogram::Histogram>(), ::Histogram::deleter);
+
+    void *buf = nullptr;
+    std::size_t size = 0;
+    if (!hist.pack(&buf, &size) || !copy->unpack(buf, size)) {
+        copy = nullptr;
+    }
+    dealloc(buf);
+
+    return copy;
+}
+
 Message::Response::BHistogram *Datastore::Datastore::operate(Message::Request::BHistogram *req) {
     /**
      * handle histograms right here because it is datastore agnostic
@@ -221,9 +243,14 @@ Message::Response::BHistogram *Datastore::Datastore::operate(Message::Request::B
         REF(hists)::const_iterator it = hists.find((std::string) req->names[i]);
         clock_gettime(CLOCK_MONOTONIC, &end);
 
+        Histogram hist = nullptr;
         if (it != hists.end()) {
-            res->add(it->second, DATASTORE_SUCCESS);
-            event.size += it->second->pack_size();
+            hist = snapshot(*it->second);
+        }
+
+        if (hist) {
+            res->add(hist, DATASTORE_SUCCESS);
+            event.size += hist->pack_size();
         }
         else {
             res->add(nullptr, DATASTORE_ERROR);
-- 
2.43.0


From 5d00e91a96da7fe85386d33eca176ef71e3c57ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:52 +0000
Subject: [PATCH 62/70] fix: keep the integer part of large decimals that do
 not fit in an int when encoding

---
 include/utils/elen.tpp | 43 +++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/include/utils/elen.tpp b/include/utils/elen.tpp
index 74bb600..98087a4 100644
--- a/include/utils/elen.tpp
+++ b/include/utils/elen.tpp
@@ -108,19 +108,37 @@ std::string large_decimals(const T value, const int precision, const char neg, c
     }
 
     std::stringstream s;
-    s << std::fixed << std::setprecision(precision) << value;
+    s << std::fixed << std::setprecision(precision) << std::abs(value);
+
+    // keep the digits of the integer part, since it might not fit in an integer
+    std::string integer;
+    std::getline(s, integer, '.');
+
+    // the decimal point was removed
+    std::string digits;
+    s >> digits;
 
-    int integer = 0;
     T decimal = 0;
-    s >> integer >> decimal;
+    std::stringstream("0." + digits) >> decimal;
 
     if (value < 0) {
         decimal = -decimal;
     }
 
     std::string out;
-    if (integer != 0) {
-        out = integers<int, std::true_type>(integer, neg, pos);
+    if (integer != "0") {
+        const char prefix = (value < 0)?neg:pos;
+        out = prefix;
+        if (integer.size() > 1) {
+            out += unique<std::size_t, std::true_type>(integer.size(), prefix, neg, pos);
+        }
+
+        // negatives get their digits flipped
+        if (prefix == neg) {
+            flip(integer);
+        }
+
+        out += integer;
     }
     else {
         if (value < 0) {
@@ -353,7 +371,6 @@ T large_decimals(const std::string &str, const char neg, const char pos) {
         throw std::length_error(ERROR_PREFIX + "Decode Large Decimals: Need string longer than 2 characters (prefix + digits + postfix): " + str);
     }
 
-    int integer = 0;
     const char prefix = str[0];
     const std::size_t prefix_count = get_prefix_count(prefix, str, neg, pos);
     std::size_t position = prefix_count;
@@ -363,10 +380,18 @@ T large_decimals(const std::string &str, const char neg, const char pos) {
         len = next<std::size_t, std::true_type>(prefix, str, position, len, neg);
     }
 
-    // the final section is the integral value
-    integer = next<int, std::true_type>(prefix, str, position, len, neg);
+    // the final section is the integral value, which might not fit in an integer
+    std::string integer = str.substr(position, len);
+    position += len;
+    if (prefix == neg) {
+        flip(integer);
+    }
+
+    T out = 0;
+    if (!(std::stringstream(integer) >> out)) {
+        throw std::invalid_argument(ERROR_PREFIX + "Decode Large Decimals: Could not read integer part: " + integer + " from " + str);
+    }
 
-    T out = integer;
     if (prefix == neg) {
         out = -out;
     }
-- 
2.43.0


From 9f13b01f5f83acb181c8b9f969d29257cce1584b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:10 +0000
Subject: [PATCH 63/70] fix: a log line on stdout keeps its header unless
 stdout is a terminal

---
 src/utils/mlog2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/mlog2.c b/src/utils/mlog2.c
index e0e45ed..2b5f431 100644
--- a/src/utils/mlog2.c
+++ b/src/utils/mlog2.c
@@ -708,7 +708,7 @@ static void vmlog(int flags, const char *fmt, va_list ap)
         }
     }
     if (thisflag & MLOG_STDOUT) {
-        if (mst.stderr_isatty) {
+        if (mst.stdout_isatty) {
             printf("%s", b_nopt1hdr);
         } else {
             printf("%s", b);
-- 
2.43.0


From 1ac1f51c18960a16145d791daa660c519d70ce9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:17 +0000
Subject: [PATCH 64/70] fix: mlog_findmesgbuf does not return a buffer that
 ends outside of the searched memory

---
 src/utils/mlog2.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/mlog2.c b/src/utils/mlog2.c
index 2b5f431..5614a27 100644
--- a/src/utils/mlog2.c
+++ b/src/utils/mlog2.c
@@ -1482,8 +1482,8 @@ int mlog_findmesgbuf(char *b, int len, char **b1p, int *b1l,
         if (mb.mbh_wp > mb.mbh_len) {
             continue;
         }
-        if (ptr + mb.mbh_len > bufend ||
-                ptr + mb.mbh_len < ptr) {
+        /* all of it has to be here */
+        if (mb.mbh_len > (size_t)(bufend - ptr) - sizeof(mb)) {
             continue;
         }
         /*
-- 
2.43.0


From f2ae2c327463913ac788f128369802ba12b0fff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:34 +0000
Subject: [PATCH 65/70] fix: closing one session does not close the log other
 sessions use

---
 include/hxhim/private/hxhim.hpp |  1 +
 src/hxhim/hxhim.cpp             | 40 ++++++++++++++++++++++++++++-----
 src/hxhim/private.cpp           |  1 +
 3 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/include/hxhim/private/hxhim.hpp b/include/hxhim/private/hxhim.hpp
index ffedd87..1f382ce 100644
--- a/include/hxhim/private/hxhim.hpp
+++ b/include/hxhim/private/hxhim.hpp
@@ -58,6 +58,7 @@ typedef struct hxhim_private {
     Stats::Chronopoint epoch;
 
     int debug_level;
+    bool logging;                          // whether or not this session uses the log
 
     struct {
         MPI_Comm comm;
diff --git a/src/hxhim/hxhim.cpp b/src/hxhim/hxhim.cpp
index f523936..2825abd 100644
--- a/src/hxhim/hxhim.cpp
+++ b/src/hxhim/hxhim.cpp
@@ -1,3 +1,5 @@
+#include <mutex>
+
 #include "datastore/datastores.hpp"
 #include "hxhim/hxhim.hpp"
 #include "hxhim/private/Results.hpp"
@@ -34,6 +36,33 @@ const char *HXHIM_DATA_STR[] = {
     HXHIM_DATA_GEN(HXHIM_DATA_PREFIX, GENERATE_STR)
 };
 
+// all sessions of a process write to the same log: the first
+// session to be opened opens it, the last one to be closed closes it
+static std::mutex log_mutex;
+static std::size_t log_users = 0;
+static bool log_opened = false; // it is not closed if someone else opened it
+
+static void open_log(hxhim_t *hx) {
+    std::lock_guard<std::mutex> lock(log_mutex);
+    if (hx->p->logging) {
+        return;
+    }
+
+    if (log_users++ == 0) {
+        //Open mlog - stolen from plfs
+        log_opened = (mlog_open((char *) "hxhim", 0, hx->p->debug_level, hx->p->debug_level, nullptr, 0, MLOG_LOGPID, 0) == 0);
+    }
+
+    hx->p->logging = true;
+}
+
+static void close_log() {
+    std::lock_guard<std::mutex> lock(log_mutex);
+    if ((--log_users == 0) && log_opened) {
+        mlog_close();
+    }
+}
+
 namespace hxhim {
 namespace config {
 
@@ -110,8 +139,7 @@ int hxhim::Open(hxhim_t *hx) {
     init.start = ::Stats::now();
     #endif
 
-    //Open mlog - stolen from plfs
-    mlog_open((char *) "hxhim", 0, hx->p->debug_level, hx->p->debug_level, nullptr, 0, MLOG_LOGPID, 0);
+    open_log(hx);
 
     mlog(HXHIM_CLIENT_INFO, "Initializing HXHIM");
 
@@ -192,8 +220,7 @@ int hxhim::OpenOne(hxhim_t *hx, const std::string &db_path) {
         return HXHIM_ERROR;
     }
 
-    //Open mlog - stolen from plfs
-    mlog_open((char *) "hxhim", 0, hx->p->debug_level, hx->p->debug_level, nullptr, 0, MLOG_LOGPID, 0);
+    open_log(hx);
 
     if ((init::bootstrap     (hx)          != HXHIM_SUCCESS) ||
         (hx->p->bootstrap.size             != 1)             ||    // Only allow for 1 rank
@@ -281,11 +308,14 @@ int hxhim::Close(hxhim_t *hx) {
     destroy::bootstrap(hx);
 
     // clean up pointer to private data
+    const bool logging = hx->p->logging;
     destruct(hx->p);
     hx->p = nullptr;
 
     mlog(HXHIM_CLIENT_INFO, "Rank %d HXHIM has been shutdown", rank);
-    mlog_close();
+    if (logging) {
+        close_log();
+    }
     return HXHIM_SUCCESS;
 }
 
diff --git a/src/hxhim/private.cpp b/src/hxhim/private.cpp
index c7f592b..cbd4733 100644
--- a/src/hxhim/private.cpp
+++ b/src/hxhim/private.cpp
@@ -7,6 +7,7 @@
 hxhim_private::hxhim_private()
     : epoch(::Stats::init()),
       debug_level(MLOG_DBG3),
+      logging(false),
       bootstrap(),
       running(false),
       queues(),
-- 
2.43.0


From a09ff64b7ebe83483b7ea50f9c25575839acb740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:39 +0000
Subject: [PATCH 66/70] fix: print unsigned values as unsigned

---
 examples/hxhim/print_results.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/examples/hxhim/print_results.c b/examples/hxhim/print_results.c
index fdb838d..c46ac5a 100644
--- a/examples/hxhim/print_results.c
+++ b/examples/hxhim/print_results.c
@@ -18,10 +18,10 @@ void print_by_type(void *value, size_t value_len, enum hxhim_data_t type) {
             printf("%" PRId64, * (int64_t *) value);
             break;
         case HXHIM_DATA_UINT32:
-            printf("%" PRId32, * (uint32_t *) value);
+            printf("%" PRIu32, * (uint32_t *) value);
             break;
         case HXHIM_DATA_UINT64:
-            printf("%" PRId64, * (uint64_t *) value);
+            printf("%" PRIu64, * (uint64_t *) value);
             break;
         case HXHIM_DATA_FLOAT:
             printf("%.*f", FLT_DECIMAL_DIG, * (float *) value);
-- 
2.43.0


From 4e16f52be2639769a580a327cdd06fea42f9d4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:48 +0000
Subject: [PATCH 67/70] fix: initialise the members of the command line tool's
 UserInput

---
 examples/hxhim/cli.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/examples/hxhim/cli.cpp b/examples/hxhim/cli.cpp
index 1944823..40b86ff 100644
--- a/examples/hxhim/cli.cpp
+++ b/examples/hxhim/cli.cpp
@@ -186,8 +186,8 @@ struct UserInput {
     Blob object; // data field is only used by (B)PUT
 
     // only used by (B)GETOP
-    std::size_t num_recs;
-    hxhim_getop_t op;
+    std::size_t num_recs = 0;
+    hxhim_getop_t op = HXHIM_GETOP_INVALID;
 };
 
 using UserInputs = std::list<UserInput>;
-- 
2.43.0


From 4eb6df97abe4efe0129fdd5e81977ecd78d393b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:11 +0000
Subject: [PATCH 68/70] Revert "fix: initialise the members of the command line
 tool's UserInput"

This reverts commit 4e16f52be2639769a580a327cdd06fea42f9d4a6.
---
 examples/hxhim/cli.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/examples/hxhim/cli.cpp b/examples/hxhim/cli.cpp
index 40b86ff..1944823 100644
--- a/examples/hxhim/cli.cpp
+++ b/examples/hxhim/cli.cpp
@@ -186,8 +186,8 @@ struct UserInput {
     Blob object; // data field is only used by (B)PUT
 
     // only used by (B)GETOP
-    std::size_t num_recs = 0;
-    hxhim_getop_t op = HXHIM_GETOP_INVALID;
+    std::size_t num_recs;
+    hxhim_getop_t op;
 };
 
 using UserInputs = std::list<UserInput>;
-- 
2.43.0


From 32769a4de2c51016b32d5d1fe14864253ca899fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:11 +0000
Subject: [PATCH 69/70] Revert "fix: print unsigned values as unsigned"

This reverts commit a09ff64b7ebe83483b7ea50f9c25575839acb740.
---
 examples/hxhim/print_results.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/examples/hxhim/print_results.c b/examples/hxhim/print_results.c
index c46ac5a..fdb838d 100644
--- a/examples/hxhim/print_results.c
+++ b/examples/hxhim/print_results.c
@@ -18,10 +18,10 @@ void print_by_type(void *value, size_t value_len, enum hxhim_data_t type) {
             printf("%" PRId64, * (int64_t *) value);
             break;
         case HXHIM_DATA_UINT32:
-            printf("%" PRIu32, * (uint32_t *) value);
+            printf("%" PRId32, * (uint32_t *) value);
             break;
         case HXHIM_DATA_UINT64:
-            printf("%" PRIu64, * (uint64_t *) value);
+            printf("%" PRId64, * (uint64_t *) value);
             break;
         case HXHIM_DATA_FLOAT:
             printf("%.*f", FLT_DECIMAL_DIG, * (float *) value);
-- 
2.43.0


From c2cd48d17cac1f01bb4d8672bf4b72f166ba36e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:26 +0000
Subject: [PATCH 70/70] fix: several threads can initialise sessions at the
 same time

---
 src/utils/Stats.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/utils/Stats.cpp b/src/utils/Stats.cpp
index df83fde..f2e807d 100644
--- a/src/utils/Stats.cpp
+++ b/src/utils/Stats.cpp
@@ -6,12 +6,9 @@
 Stats::Chronopoint Stats::global_epoch = {};
 
 Stats::Chronopoint Stats::init() {
-    static bool global_epoch_initialized = false;
-    if (!global_epoch_initialized) {
-        Stats::global_epoch = Stats::now();
-        global_epoch_initialized = true;
-    }
-    return Stats::global_epoch;
+    // only set once, even if several threads get here at the same time
+    static const Stats::Chronopoint epoch = (Stats::global_epoch = Stats::now());
+    return epoch;
 }
 
 Stats::Chronopoint Stats::now() {
-- 
2.43.0

