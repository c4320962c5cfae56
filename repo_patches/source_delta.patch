From 7bedd5b2a9614356500eb983ac042a4a87b0794f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:02 +0000
Subject: [PATCH 01/70] fix: bloom filter of fewer than 64 bits loses its items
 when reloaded from its bytes

BloomFilter::with_data rounded the byte count (not the bit count) up to at
least 8, so a 1, 2 or 4 byte filter came back with a wider mask than it was
filled with and reported inserted items as absent.
---
 common/utils/src/bloom_filter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/utils/src/bloom_filter.rs b/common/utils/src/bloom_filter.rs
index 10c1f4e..e28b837 100644
--- a/common/utils/src/bloom_filter.rs
+++ b/common/utils/src/bloom_filter.rs
@@ -35,11 +35,11 @@ impl BloomFilter {
     /// Similar to `new()`
     pub fn with_data(data: &[u8]) -> Self {
         let mut b = data.to_vec();
-        let l = Self::pow2(b.len() as u64);
+        let m = Self::pow2((b.len() as u64) << 3);
+        let l = m >> 3;
         if l != b.len() as u64 {
             b.resize(l as usize, 0);
         }
-        let m = l << 3;
 
         Self { b, mask: m - 1 }
     }
-- 
2.43.0


From bc2f5b6ae0da933d68551f4bcd9c2931418e3024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:32 +0000
Subject: [PATCH 02/70] fix: rate bucket refill overflows for a large refill
 amount

tokens * refill wrapped around (panicked in debug builds), so a bucket with a
large refill could come out with fewer tokens than it should hold.
---
 common/limiter_bucket/src/rate_bucket.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/limiter_bucket/src/rate_bucket.rs b/common/limiter_bucket/src/rate_bucket.rs
index 72cb477..e2d8801 100644
--- a/common/limiter_bucket/src/rate_bucket.rs
+++ b/common/limiter_bucket/src/rate_bucket.rs
@@ -231,7 +231,7 @@ impl RateBucket {
     fn update_critical(&self, critical: &mut MutexGuard<Critical>) {
         if let Some((tokens, deadline)) = calculate_drain(critical.deadline, self.interval) {
             critical.deadline = deadline;
-            critical.balance = critical.balance.saturating_add(tokens * self.refill);
+            critical.balance = critical.balance.saturating_add(tokens.saturating_mul(self.refill));
 
             if critical.balance > self.max {
                 critical.balance = self.max;
-- 
2.43.0


From 7bf97fc20721d28a6ecd96ca7041ba1c7cadc4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:14 +0000
Subject: [PATCH 03/70] fix: recording a large value several times overflows
 the histogram total

---
 common/metrics/src/histogram.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/metrics/src/histogram.rs b/common/metrics/src/histogram.rs
index 703e03c..1a662ce 100644
--- a/common/metrics/src/histogram.rs
+++ b/common/metrics/src/histogram.rs
@@ -60,7 +60,7 @@ impl U64Histogram {
             .as_mut()
         {
             bucket.count = bucket.count.wrapping_add(count);
-            state.total = state.total.wrapping_add(value * count);
+            state.total = state.total.wrapping_add(value.wrapping_mul(count));
         }
     }
 }
-- 
2.43.0


From 6f0b9d0f2b29ca79a4d9553d96c3d0c3f95e717f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:14 +0000
Subject: [PATCH 04/70] fix: pop of the sharded cache picks a non-empty shard
 but pops another one

---
 common/cache/src/sharded_sync_cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/cache/src/sharded_sync_cache.rs b/common/cache/src/sharded_sync_cache.rs
index f6174ab..2da95b5 100644
--- a/common/cache/src/sharded_sync_cache.rs
+++ b/common/cache/src/sharded_sync_cache.rs
@@ -95,7 +95,7 @@ where
         } else {
             let shard_len = none_empty_shard.len();
             let index = rand::thread_rng().next_u64() as usize % shard_len;
-            self.shard.get(index)?.pop()
+            none_empty_shard.get(index)?.pop()
         }
     }
 
-- 
2.43.0


From 459362de3be8689d230614df00307608a70f13c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:14 +0000
Subject: [PATCH 05/70] fix: pop of the sharded async cache returns nothing
 when the shard it picks is empty

---
 common/cache/src/sharded_async_cache.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/common/cache/src/sharded_async_cache.rs b/common/cache/src/sharded_async_cache.rs
index 04f80ea..a9fdfd2 100644
--- a/common/cache/src/sharded_async_cache.rs
+++ b/common/cache/src/sharded_async_cache.rs
@@ -72,8 +72,14 @@ where
     }
 
     async fn pop(&self) -> Option<(Self::K, Self::V)> {
-        let index = rand::thread_rng().next_u64() as usize % self.shard.len();
-        self.shard.get(index)?.lock().await.pop()
+        let start = rand::thread_rng().next_u64() as usize % self.shard.len();
+        for i in 0..self.shard.len() {
+            let index = (start + i) % self.shard.len();
+            if let Some(entry) = self.shard.get(index)?.lock().await.pop() {
+                return Some(entry);
+            }
+        }
+        None
     }
 
     async fn set_capacity(&self, capacity: NonZeroUsize) {
-- 
2.43.0


From a8e442fabc1aa2cc75cc8d3e74901be50b578d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:25 +0000
Subject: [PATCH 06/70] fix: time ranges unbounded on both sides drop what is
 pushed into their gaps

---
 common/models/src/predicate/domain.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/models/src/predicate/domain.rs b/common/models/src/predicate/domain.rs
index 1b77b13..e9f4a2e 100644
--- a/common/models/src/predicate/domain.rs
+++ b/common/models/src/predicate/domain.rs
@@ -342,7 +342,7 @@ impl TimeRanges {
     }
 
     pub fn is_boundless(&self) -> bool {
-        self.min_ts == Timestamp::MIN && self.max_ts == Timestamp::MAX
+        self.inner.get(&Timestamp::MIN) == Some(&Timestamp::MAX)
     }
 
     pub fn overlaps(&self, time_range: &TimeRange) -> bool {
-- 
2.43.0


From 1bf13e8012a48393ccbe5bff86ce531840cea2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:25 +0000
Subject: [PATCH 07/70] fix: excluding a time range that ends at the largest
 timestamp leaves that timestamp behind

---
 common/models/src/predicate/domain.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/common/models/src/predicate/domain.rs b/common/models/src/predicate/domain.rs
index e9f4a2e..66c0c52 100644
--- a/common/models/src/predicate/domain.rs
+++ b/common/models/src/predicate/domain.rs
@@ -170,7 +170,17 @@ impl TimeRange {
                 if min_ts > tmp_tr_min_ts {
                     remained_ranges.push((tmp_tr_min_ts, min_ts - 1).into());
                 }
-                tmp_tr_min_ts = max_ts.checked_add(1).unwrap_or(max_ts);
+                match max_ts.checked_add(1) {
+                    Some(next_min_ts) => tmp_tr_min_ts = next_min_ts,
+                    None => {
+                        // Nothing remains after the largest timestamp.
+                        return if remained_ranges.is_empty() {
+                            None
+                        } else {
+                            Some(TimeRanges::new(remained_ranges))
+                        };
+                    }
+                }
             }
         }
         if tmp_tr_min_ts <= self.max_ts {
-- 
2.43.0


From 795a60ae326b9e6ad86584971905229f394baaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:25 +0000
Subject: [PATCH 08/70] fix: a time bound excluding the largest or smallest
 timestamp wraps around

---
 common/models/src/predicate/domain.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/common/models/src/predicate/domain.rs b/common/models/src/predicate/domain.rs
index 66c0c52..d526430 100644
--- a/common/models/src/predicate/domain.rs
+++ b/common/models/src/predicate/domain.rs
@@ -43,12 +43,18 @@ impl From<(StdBound<i64>, StdBound<i64>)> for TimeRange {
     // TODO: Using TimeRange { min_ts: Bound, max_ts: Bound }
     fn from(range: (StdBound<i64>, StdBound<i64>)) -> Self {
         let min_ts = match range.0 {
-            StdBound::Excluded(v) => v + 1,
+            StdBound::Excluded(v) => match v.checked_add(1) {
+                Some(v) => v,
+                None => return TimeRange::none(),
+            },
             StdBound::Included(v) => v,
             _ => Timestamp::MIN,
         };
         let max_ts = match range.1 {
-            StdBound::Excluded(v) => v - 1,
+            StdBound::Excluded(v) => match v.checked_sub(1) {
+                Some(v) => v,
+                None => return TimeRange::none(),
+            },
             StdBound::Included(v) => v,
             _ => Timestamp::MAX,
         };
-- 
2.43.0


From cde10db604e3249f2c887cbe022d28a9ec99db04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:25 +0000
Subject: [PATCH 09/70] fix: adding an empty time range makes time ranges
 overlap timestamps they do not contain

---
 common/models/src/predicate/domain.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/models/src/predicate/domain.rs b/common/models/src/predicate/domain.rs
index d526430..06a3d7f 100644
--- a/common/models/src/predicate/domain.rs
+++ b/common/models/src/predicate/domain.rs
@@ -250,6 +250,9 @@ pub struct TimeRanges {
 
 impl TimeRanges {
     fn add_time_range(&mut self, time_range: TimeRange) {
+        if time_range.is_none() {
+            return;
+        }
         self.min_ts = min(self.min_ts, time_range.min_ts);
         self.max_ts = max(self.max_ts, time_range.max_ts);
         let timestamps = self
-- 
2.43.0


From 83fe0fb791ad8d0cdacbff763da774da35d9f40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:45 +0000
Subject: [PATCH 10/70] fix: order range markers by their bound, so unions and
 intersections keep exactly the right end points

---
 common/models/src/predicate/domain.rs | 51 +++++++++++++++------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/common/models/src/predicate/domain.rs b/common/models/src/predicate/domain.rs
index 06a3d7f..42800c0 100644
--- a/common/models/src/predicate/domain.rs
+++ b/common/models/src/predicate/domain.rs
@@ -440,7 +440,8 @@ impl Display for TimeRanges {
     }
 }
 
-#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
+/// The order of the variants is the order of the points around one value.
+#[derive(Debug, Clone, PartialEq, PartialOrd, Ord, Serialize, Deserialize, Eq)]
 enum Bound {
     /// lower than the value, but infinitesimally close to the value.
     Below,
@@ -610,6 +611,15 @@ impl Marker {
     fn check_type_compatibility(&self, other: &Self) -> bool {
         self.data_type == other.data_type
     }
+    /// Whether no value lies between the two points, like in (-∞, 2) and [2, +∞).
+    fn adjoins(&self, next: &Self) -> bool {
+        self.value.is_some()
+            && self.value == next.value
+            && matches!(
+                (&self.bound, &next.bound),
+                (Bound::Below, Bound::Exactly) | (Bound::Exactly, Bound::Above)
+            )
+    }
 }
 
 impl PartialEq for Marker {
@@ -634,11 +644,7 @@ impl PartialEq for Marker {
             return false;
         }
         // value and other.value are present
-        if self.value != other.value {
-            return false;
-        }
-
-        true
+        self.value == other.value && self.bound == other.bound
     }
 }
 impl Ord for Marker {
@@ -682,7 +688,10 @@ impl Ord for Marker {
         let self_data = self.value.as_ref().unwrap();
         let other_data = other.value.as_ref().unwrap();
 
-        self_data.partial_cmp(other_data).unwrap()
+        match self_data.partial_cmp(other_data).unwrap() {
+            Ordering::Equal => self.bound.cmp(&other.bound),
+            ordering => ordering,
+        }
     }
 }
 
@@ -904,17 +913,15 @@ impl Range {
     /// Returns an exception if the data types are incompatible.
     fn overlaps(&self, other: &Self) -> ModelResult<bool> {
         self.check_type_compatibility(other)?;
-        if self.low <= other.high && other.low <= self.high {
-            // like (-∞, 2) and (2, +∞) is not overlap
-            if self.high == other.low
-                && self.high.bound == Bound::Below
-                && other.low.bound == Bound::Above
-            {
-                return Ok(false);
-            }
-            return Ok(true);
-        }
-        Ok(false)
+        Ok(self.low <= other.high && other.low <= self.high)
+    }
+    /// Determine if the union of two ranges of values is one range.
+    ///
+    /// Returns an exception if the data types are incompatible.
+    fn is_connected(&self, other: &Self) -> ModelResult<bool> {
+        Ok(self.overlaps(other)?
+            || self.high.adjoins(&other.low)
+            || other.high.adjoins(&self.low))
     }
     /// Calculates the intersection of two ranges.
     ///
@@ -945,8 +952,8 @@ impl Range {
     /// Returns an exception if the data types are incompatible.
     fn span(&self, other: &Self) -> ModelResult<Self> {
         //Type mismatch directly returns an exception
-        if self.overlaps(other)? {
-            // There is overlap, calculate the intersection
+        if self.is_connected(other)? {
+            // There is no gap between the two, calculate the span
             let low = cmp::min(&self.low, &other.low);
             let high = cmp::max(&self.high, &other.high);
 
@@ -1172,9 +1179,9 @@ impl Domain {
             // Check if types match
             current.check_type_compatibility(next)?;
 
-            match current.overlaps(next) {
+            match current.is_connected(next) {
                 Ok(true) => {
-                    // If the two ranges have intersection, then merge
+                    // If the two ranges have intersection or adjoin, then merge
                     let span_range = current.span(next).unwrap();
                     current = span_range
                 }
-- 
2.43.0


From e588a9110571f8aa47381261098d7506970aad18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:45 +0000
Subject: [PATCH 11/70] fix: keep every tag and time condition of a DELETE
 statement

---
 common/models/src/predicate/transformation.rs | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/common/models/src/predicate/transformation.rs b/common/models/src/predicate/transformation.rs
index 5a47d64..a086c85 100644
--- a/common/models/src/predicate/transformation.rs
+++ b/common/models/src/predicate/transformation.rs
@@ -402,15 +402,18 @@ impl DeleteSelectionExpressionToDomainsVisitorContext {
     }
 
     /// Returns two column domains: tag and time.
-    pub fn into_tag_and_time_domains(mut self) -> (ColumnDomains<String>, ColumnDomains<String>) {
-        (
-            self.tag_domain_stack
-                .pop_back()
-                .unwrap_or(ColumnDomains::all()),
-            self.time_domain_stack
-                .pop_back()
-                .unwrap_or(ColumnDomains::all()),
-        )
+    pub fn into_tag_and_time_domains(self) -> (ColumnDomains<String>, ColumnDomains<String>) {
+        // Only AND is supported, so a row must satisfy every domain that is left in the stacks.
+        let mut tag_domains = ColumnDomains::all();
+        for domains in self.tag_domain_stack.iter() {
+            tag_domains.intersect(domains);
+        }
+        let mut time_domains = ColumnDomains::all();
+        for domains in self.time_domain_stack.iter() {
+            time_domains.intersect(domains);
+        }
+
+        (tag_domains, time_domains)
     }
 }
 
-- 
2.43.0


From d4b670f84b15f097f90b4a3bc80227a5fd29771d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:55 +0000
Subject: [PATCH 12/70] fix: a comparison with NULL selects no row in a DELETE
 statement

---
 common/models/src/predicate/transformation.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/models/src/predicate/transformation.rs b/common/models/src/predicate/transformation.rs
index a086c85..4079cee 100644
--- a/common/models/src/predicate/transformation.rs
+++ b/common/models/src/predicate/transformation.rs
@@ -71,7 +71,7 @@ impl NormalizedSimpleComparison {
         }
         .and_then(|e| {
             // not support null with column of binary op
-            if matches!(e.value, ScalarValue::Null | ScalarValue::Utf8(None)) {
+            if e.value.is_null() {
                 return None;
             }
             Some(e)
@@ -583,7 +583,8 @@ impl DeleteSelectionExpressionToDomainsVisitor<'_> {
             };
             ctx.push_back(domains, nsc.column.name == TIME_FIELD_NAME);
         } else {
-            println!("push nothing!");
+            // A comparison with NULL is never true, so no row is selected
+            ctx.push_back(ColumnDomains::none(), false);
         }
     }
 }
-- 
2.43.0


From 001e71f3252e2476c12ffdbb6ff31ab16e2f2b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:52 +0000
Subject: [PATCH 13/70] fix: a boolean constant or column in the selection of a
 DELETE statement is ignored

DELETE ... WHERE false deleted every row, since only comparisons leave a domain. A constant
condition now selects every or no row, any other condition that is not a comparison is rejected.
---
 common/models/src/predicate/transformation.rs | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/common/models/src/predicate/transformation.rs b/common/models/src/predicate/transformation.rs
index 4079cee..93403bc 100644
--- a/common/models/src/predicate/transformation.rs
+++ b/common/models/src/predicate/transformation.rs
@@ -503,6 +503,8 @@ impl TreeNodeVisitor for DeleteSelectionExpressionToDomainsVisitor<'_> {
                     },
                     // The stack is domain, pop it, and generate a new domain
                     Operator::And => {
+                        Self::check_condition(self.ctx, left)?;
+                        Self::check_condition(self.ctx, right)?;
                         self.ctx.try_intersect_top2_domains();
                     }
                     _ => {
@@ -530,9 +532,30 @@ impl DeleteSelectionExpressionToDomainsVisitor<'_> {
     ) -> Result<(ColumnDomains<String>, ColumnDomains<String>)> {
         let mut ctx = DeleteSelectionExpressionToDomainsVisitorContext::default();
         expr.visit(&mut DeleteSelectionExpressionToDomainsVisitor { ctx: &mut ctx })?;
+        Self::check_condition(&mut ctx, expr)?;
         Ok(ctx.into_tag_and_time_domains())
     }
 
+    /// The selection and the operands of AND are conditions, the domains of comparisons and AND are already pushed.
+    fn check_condition(
+        ctx: &mut DeleteSelectionExpressionToDomainsVisitorContext,
+        expr: &Expr,
+    ) -> Result<()> {
+        match expr {
+            Expr::BinaryExpr(_) => Ok(()),
+            // Every row is selected, no domain is needed
+            Expr::Literal(ScalarValue::Boolean(Some(true))) => Ok(()),
+            // No row is selected
+            Expr::Literal(ScalarValue::Boolean(_)) | Expr::Literal(ScalarValue::Null) => {
+                ctx.push_back(ColumnDomains::none(), false);
+                Ok(())
+            }
+            other => Err(DataFusionError::NotImplemented(format!(
+                "{other} in delete statement"
+            ))),
+        }
+    }
+
     /// Convert nsc to RangeValueSet, nsc.column will be transform into nsc.column.name
     ///
     /// Note: nsc must supports ordering, i.e. is_orderable == true
-- 
2.43.0


From 1fcdf9a659bc81cc12406e16a0def63af1a550df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:52 +0000
Subject: [PATCH 14/70] fix: a DELETE condition on a casted column or on a
 timestamp of another unit selects the wrong rows

The domain was built from the literal as if it was a value of the column: with
time > to_timestamp_millis(..) milliseconds were taken for nanoseconds and later rows were deleted.
Convert timestamps to nanoseconds, and reject a cast that changes the value of the column.
---
 common/models/src/predicate/transformation.rs | 54 +++++++++++++++----
 1 file changed, 45 insertions(+), 9 deletions(-)

diff --git a/common/models/src/predicate/transformation.rs b/common/models/src/predicate/transformation.rs
index 93403bc..db0a3b8 100644
--- a/common/models/src/predicate/transformation.rs
+++ b/common/models/src/predicate/transformation.rs
@@ -1,7 +1,7 @@
 use std::collections::VecDeque;
 use std::result;
 
-use datafusion::arrow::datatypes::DataType;
+use datafusion::arrow::datatypes::{DataType, TimeUnit};
 use datafusion::common::tree_node::{TreeNode, TreeNodeVisitor, VisitRecursion};
 use datafusion::common::Result as DFResult;
 use datafusion::error::DataFusionError;
@@ -481,14 +481,14 @@ impl TreeNodeVisitor for DeleteSelectionExpressionToDomainsVisitor<'_> {
                         | (Expr::Literal(_), Expr::Column(_)) => {
                             Self::construct_value_set_and_push_domain_stack(
                                 self.ctx, left, op, right,
-                            );
+                            )?;
                         }
-                        (Expr::Literal(_), Expr::Cast(expr))
-                        | (Expr::Cast(expr), Expr::Literal(_)) => {
-                            if let Expr::Column(_) = *expr.expr {
+                        (Expr::Literal(_), Expr::Cast(cast))
+                        | (Expr::Cast(cast), Expr::Literal(_)) => {
+                            if Self::cast_keeps_value(&cast.expr, &cast.data_type) {
                                 Self::construct_value_set_and_push_domain_stack(
                                     self.ctx, left, op, right,
-                                );
+                                )?;
                             } else {
                                 return Err(DataFusionError::NotImplemented(format!(
                                     "{left} {op} {right} in delete statement"
@@ -585,6 +585,32 @@ impl DeleteSelectionExpressionToDomainsVisitor<'_> {
         ColumnDomains::of(col.name.to_owned(), &val_set)
     }
 
+    /// Whether the value of a casted column is the value of the column
+    fn cast_keeps_value(expr: &Expr, data_type: &DataType) -> bool {
+        match expr {
+            Expr::Column(column) if column.name == TIME_FIELD_NAME => {
+                matches!(data_type, DataType::Timestamp(TimeUnit::Nanosecond, _))
+            }
+            Expr::Column(_) => matches!(data_type, DataType::Utf8),
+            _ => false,
+        }
+    }
+
+    /// Convert a timestamp that is compared with the time column to nanoseconds,
+    /// None if it is out of range.
+    fn to_nanosecond(value: &ScalarValue) -> Option<ScalarValue> {
+        let (nanosecond, tz) = match value {
+            ScalarValue::TimestampSecond(Some(v), tz) => (v.checked_mul(1_000_000_000)?, tz),
+            ScalarValue::TimestampMillisecond(Some(v), tz) => (v.checked_mul(1_000_000)?, tz),
+            ScalarValue::TimestampMicrosecond(Some(v), tz) => (v.checked_mul(1_000)?, tz),
+            _ => return Some(value.clone()),
+        };
+        Some(ScalarValue::TimestampNanosecond(
+            Some(nanosecond),
+            tz.clone(),
+        ))
+    }
+
     /// Construct comparison operations as simple column-value comparison data structures nsc.
     ///
     /// Choose a different NscToValueSet function based on whether the data type supports sorting.
@@ -597,18 +623,28 @@ impl DeleteSelectionExpressionToDomainsVisitor<'_> {
         left: &Expr,
         op: &Operator,
         right: &Expr,
-    ) {
-        if let Some(nsc) = NormalizedSimpleComparison::of(left.clone(), *op, right.clone()) {
+    ) -> Result<()> {
+        if let Some(mut nsc) = NormalizedSimpleComparison::of(left.clone(), *op, right.clone()) {
+            let is_time = nsc.column.name == TIME_FIELD_NAME;
+            if is_time {
+                // The time domain is in nanoseconds
+                nsc.value = Self::to_nanosecond(&nsc.value).ok_or_else(|| {
+                    DataFusionError::NotImplemented(format!(
+                        "{left} {op} {right} in delete statement"
+                    ))
+                })?;
+            }
             let domains = if nsc.is_orderable() {
                 Self::nsc_to_string_domains_with_range(&nsc)
             } else {
                 Self::nsc_to_domains_with_equtable(&nsc)
             };
-            ctx.push_back(domains, nsc.column.name == TIME_FIELD_NAME);
+            ctx.push_back(domains, is_time);
         } else {
             // A comparison with NULL is never true, so no row is selected
             ctx.push_back(ColumnDomains::none(), false);
         }
+        Ok(())
     }
 }
 
-- 
2.43.0


From 0bb1a26fb27d5a421e8ee693b6bdbc1682bc17ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:33 +0000
Subject: [PATCH 15/70] fix: DELETE in a database of millisecond or microsecond
 precision deletes rows outside of the time range

time > '..00.0015' deleted the row at 00.001 (and a range below 1970 the row after its end), since both
bounds were rounded towards zero; without a bound the rows later than the year 2262 were kept.
---
 .../src/execution/dml/delete_from_table.rs    | 46 ++++++++++++-------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/query_server/query/src/execution/dml/delete_from_table.rs b/query_server/query/src/execution/dml/delete_from_table.rs
index d19ffc1..512a8dd 100644
--- a/query_server/query/src/execution/dml/delete_from_table.rs
+++ b/query_server/query/src/execution/dml/delete_from_table.rs
@@ -2,9 +2,10 @@ use std::sync::Arc;
 
 use async_trait::async_trait;
 use meta::error::{DatabaseNotFoundSnafu, TenantNotFoundSnafu};
-use models::predicate::domain::{ColumnDomains, ResolvedPredicate, TimeRanges};
+use models::predicate::domain::{ColumnDomains, ResolvedPredicate, TimeRange, TimeRanges};
 use models::predicate::transformation::DeleteSelectionExpressionToDomainsVisitor;
 use models::predicate::utils::filter_to_time_ranges;
+use models::Timestamp;
 use snafu::ResultExt;
 use spi::query::execution::{Output, QueryStateMachineRef};
 use spi::query::logical_planner::DeleteFromTable;
@@ -58,22 +59,12 @@ impl DMLDefinitionTask for DeleteFromTableTask {
                 DeleteSelectionExpressionToDomainsVisitor::expr_to_tag_and_time_domains(expr)?;
             let mut time_ranges = filter_to_time_ranges(&time);
             for range in time_ranges.iter_mut() {
-                let min =
-                    timestamp_convert(Precision::NS, precision, range.min_ts).ok_or_else(|| {
-                        InvalidParamSnafu {
-                            reason: "Invalid timestamp".to_string(),
-                        }
-                        .build()
-                    })?;
-                let max =
-                    timestamp_convert(Precision::NS, precision, range.max_ts).ok_or_else(|| {
-                        InvalidParamSnafu {
-                            reason: "Invalid timestamp".to_string(),
-                        }
-                        .build()
-                    })?;
-                range.max_ts = max;
-                range.min_ts = min;
+                *range = time_range_convert(*range, precision).ok_or_else(|| {
+                    InvalidParamSnafu {
+                        reason: "Invalid timestamp".to_string(),
+                    }
+                    .build()
+                })?;
             }
             (tag, TimeRanges::new(time_ranges))
         } else {
@@ -94,3 +85,24 @@ impl DMLDefinitionTask for DeleteFromTableTask {
         Ok(Output::Nil(()))
     }
 }
+
+/// Converts a range of nanoseconds to the range of timestamps of `precision` that lie in it.
+fn time_range_convert(range: TimeRange, precision: Precision) -> Option<TimeRange> {
+    let mut min_ts = range.min_ts;
+    // The ends of the 64-bit range stand for no bound.
+    if min_ts != Timestamp::MIN {
+        min_ts = timestamp_convert(Precision::NS, precision, range.min_ts)?;
+        // The division rounds towards zero
+        if timestamp_convert(precision, Precision::NS, min_ts)? < range.min_ts {
+            min_ts += 1;
+        }
+    }
+    let mut max_ts = range.max_ts;
+    if max_ts != Timestamp::MAX {
+        max_ts = timestamp_convert(Precision::NS, precision, range.max_ts)?;
+        if timestamp_convert(precision, Precision::NS, max_ts)? > range.max_ts {
+            max_ts -= 1;
+        }
+    }
+    Some(TimeRange::new(min_ts, max_ts))
+}
-- 
2.43.0


From f9f618b8d47606a031ccc05e501af3f95b969eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:33 +0000
Subject: [PATCH 16/70] fix: a comparison of two conditions in a query filter
 drops rows

x = 1 AND (a > 1) = (b > 2) was pushed down as b > 2, since the conditions below the comparison
pushed their domains, too.
---
 common/models/src/predicate/transformation.rs | 34 ++++++++-----------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/common/models/src/predicate/transformation.rs b/common/models/src/predicate/transformation.rs
index db0a3b8..0961b8c 100644
--- a/common/models/src/predicate/transformation.rs
+++ b/common/models/src/predicate/transformation.rs
@@ -187,20 +187,21 @@ impl TreeNodeVisitor for RowExpressionToDomainsVisitor<'_> {
             // | Expr::QualifiedWildcard { .. }
             // | Expr::GetIndexedField { .. } => {}
             Expr::Column(_) | Expr::Literal(_) => Ok(VisitRecursion::Continue),
-            Expr::BinaryExpr(BinaryExpr {
-                left: _,
-                op,
-                right: _,
-            }) => {
+            Expr::BinaryExpr(BinaryExpr { left, op, right }) => {
                 match op {
                     Operator::Eq
                     | Operator::NotEq
                     | Operator::Lt
                     | Operator::LtEq
                     | Operator::Gt
-                    | Operator::GtEq
-                    | Operator::And
-                    | Operator::Or => {
+                    | Operator::GtEq => {
+                        // A comparison pushes one domain. Its child nodes must not push any, so skip them.
+                        Self::construct_value_set_and_push_current_domain_stack(
+                            self.ctx, left, op, right,
+                        );
+                        Ok(VisitRecursion::Skip)
+                    }
+                    Operator::And | Operator::Or => {
                         // support
                         Ok(VisitRecursion::Continue)
                     }
@@ -239,19 +240,12 @@ impl TreeNodeVisitor for RowExpressionToDomainsVisitor<'_> {
 
     fn post_visit(&mut self, expr: &Expr) -> DFResult<VisitRecursion> {
         match expr {
-            Expr::BinaryExpr(BinaryExpr { left, op, right }) => {
+            Expr::BinaryExpr(BinaryExpr {
+                left: _,
+                op,
+                right: _,
+            }) => {
                 match op {
-                    // stack中为expr，清空，生成domain
-                    Operator::Eq
-                    | Operator::NotEq
-                    | Operator::Lt
-                    | Operator::LtEq
-                    | Operator::Gt
-                    | Operator::GtEq => {
-                        Self::construct_value_set_and_push_current_domain_stack(
-                            self.ctx, left, op, right,
-                        );
-                    }
                     // The stack is domain, pop it, and generate a new domain
                     Operator::And => {
                         let domain1_opt = self.ctx.current_domain_stack.pop_back();
-- 
2.43.0


From 7f0cac5ac842221118a3d2e418369c78866cb007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:49 +0000
Subject: [PATCH 17/70] fix: a filter on a casted column prunes rows by the
 value before the cast

CAST(time AS TIMESTAMP(9)) > <nanoseconds> on a millisecond column was pushed down as milliseconds and
pruned matching rows, CAST(tag AS BIGINT) > 1 ended in a panic of the tag index.
---
 common/models/src/predicate/transformation.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/common/models/src/predicate/transformation.rs b/common/models/src/predicate/transformation.rs
index 0961b8c..b68c417 100644
--- a/common/models/src/predicate/transformation.rs
+++ b/common/models/src/predicate/transformation.rs
@@ -330,6 +330,8 @@ impl RowExpressionToDomainsVisitor<'_> {
         right: &Expr,
     ) {
         let domains_opt = NormalizedSimpleComparison::of(left.clone(), *op, right.clone())
+            // The literal is compared with the result of a cast, it says nothing about the value of the column
+            .filter(|_| !matches!(left, Expr::Cast(_)) && !matches!(right, Expr::Cast(_)))
             .map(|ref nsc| {
                 if nsc.is_orderable() {
                     return Self::nsc_to_column_domains_with_range(nsc);
-- 
2.43.0


From 7b6604f3c8dfc095b0a8e0ba187476f28ad46322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:49 +0000
Subject: [PATCH 18/70] fix: c <= true and c >= false are pushed down as c !=
 true and c != false

---
 common/models/src/predicate/transformation.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/common/models/src/predicate/transformation.rs b/common/models/src/predicate/transformation.rs
index b68c417..c7c8856 100644
--- a/common/models/src/predicate/transformation.rs
+++ b/common/models/src/predicate/transformation.rs
@@ -312,8 +312,13 @@ impl RowExpressionToDomainsVisitor<'_> {
     fn nsc_to_domains_with_equtable(nsc: &NormalizedSimpleComparison) -> ColumnDomains<Column> {
         let col = &nsc.column;
         let value = &nsc.value;
-        let is_eq_op = nsc.is_eq_op();
-        let val_set = Domain::of_values(&value.get_datatype(), is_eq_op, &[value]);
+        let val_set = match nsc.op {
+            Operator::Eq | Operator::NotEq => {
+                Domain::of_values(&value.get_datatype(), nsc.is_eq_op(), &[value])
+            }
+            // The other comparisons can not be expressed by values, e.g. c <= true
+            _ => Domain::All,
+        };
         ColumnDomains::of(col.to_owned(), &val_set)
     }
     /// Construct comparison operations as simple column-value comparison data structures nsc.
-- 
2.43.0


From 7c99d44ed7e7d75a59950aabd80b513906aae8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:01 +0000
Subject: [PATCH 19/70] fix: the largest timestamp is in no bucket, so a bucket
 is created for every write of it

---
 common/models/src/meta_data.rs | 13 ++++++++-----
 meta/src/store/storage.rs      |  2 +-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/common/models/src/meta_data.rs b/common/models/src/meta_data.rs
index 325c11c..d55adad 100644
--- a/common/models/src/meta_data.rs
+++ b/common/models/src/meta_data.rs
@@ -78,6 +78,13 @@ pub struct BucketInfo {
 }
 
 impl BucketInfo {
+    /// Whether the timestamp is in this bucket.
+    ///
+    /// The end is exclusive, but there is no end after the largest timestamp.
+    pub fn contains(&self, ts: i64) -> bool {
+        ts >= self.start_time && (ts < self.end_time || self.end_time == i64::MAX)
+    }
+
     pub fn vnode_for(&self, id: u64) -> ReplicationSet {
         let index = id as usize % self.shard_group.len();
 
@@ -275,11 +282,7 @@ impl TenantMetaData {
 
     pub fn bucket_by_timestamp(&self, db_name: &str, ts: i64) -> Option<&BucketInfo> {
         if let Some(db) = self.dbs.get(db_name) {
-            if let Some(bucket) = db
-                .buckets
-                .iter()
-                .find(|bucket| (ts >= bucket.start_time) && (ts < bucket.end_time))
-            {
+            if let Some(bucket) = db.buckets.iter().find(|bucket| bucket.contains(ts)) {
                 return Some(bucket);
             }
         }
diff --git a/meta/src/store/storage.rs b/meta/src/store/storage.rs
index fe1f3ac..2806ffd 100644
--- a/meta/src/store/storage.rs
+++ b/meta/src/store/storage.rs
@@ -1188,7 +1188,7 @@ impl StateMachine {
         let db_path = KeyPath::tenant_db_name(cluster, tenant, db);
         let buckets = self.children_data::<BucketInfo>(&(db_path.clone() + "/buckets"))?;
         for (_, val) in buckets.iter() {
-            if *ts >= val.start_time && *ts < val.end_time {
+            if val.contains(*ts) {
                 return self.to_tenant_meta_data(cluster, tenant);
             }
         }
-- 
2.43.0


From 16e16950bb454b0fd1d94bf31da55ef34dfbef37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:01 +0000
Subject: [PATCH 20/70] fix: timestamps far in the past are expired although
 the TTL is infinite

---
 common/models/src/schema/database_schema.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/models/src/schema/database_schema.rs b/common/models/src/schema/database_schema.rs
index 3a1ffcd..e4fb0bb 100644
--- a/common/models/src/schema/database_schema.rs
+++ b/common/models/src/schema/database_schema.rs
@@ -81,6 +81,10 @@ impl DatabaseSchema {
                 crate::utils::now_timestamp_nanos(),
             ),
         };
+        if ttl == i64::MAX {
+            // Nothing expires
+            return i64::MIN;
+        }
         now - ttl
     }
 
-- 
2.43.0


From b4d278595cc2cef742e7026e1eefd834eb4c27a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:51 +0000
Subject: [PATCH 21/70] fix: delta-ts decode keeps the first value when the
 first row is null

---
 tskv/src/tsm/codec/timestamp.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/tskv/src/tsm/codec/timestamp.rs b/tskv/src/tsm/codec/timestamp.rs
index 8f463b2..4927b3b 100644
--- a/tskv/src/tsm/codec/timestamp.rs
+++ b/tskv/src/tsm/codec/timestamp.rs
@@ -270,19 +270,18 @@ fn decode_simple8b_to_array(src: &[u8], bit_set: &NullBuffer) -> Result<ArrayRef
     buf.copy_from_slice(&src[1..9]);
     let mut next = i64::from_be_bytes(buf);
     let mut builder = Int64Builder::with_capacity(bit_set.len());
-    let mut idx = 0;
-    if bit_set.is_valid(idx) {
-        builder.append_value(next);
-    } else {
-        builder.append_null();
-    }
-    idx += 1;
+    let mut is_first = true;
     simple8b::decode(&src[9..], &mut res);
 
     let mut value_iter = res.into_iter();
+    let mut idx = 0;
     while idx < bit_set.len() {
         if bit_set.is_valid(idx) {
-            if let Some(value) = value_iter.next() {
+            if is_first {
+                // the first value is stored raw, it belongs to the first valid row
+                builder.append_value(next);
+                is_first = false;
+            } else if let Some(value) = value_iter.next() {
                 next += if scaler > 1 {
                     (value * scaler) as i64
                 } else {
-- 
2.43.0


From f03e2838fbbb4eb322ec80bb92d9bd1f414b8994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:51 +0000
Subject: [PATCH 22/70] fix: delta decoding of integers and timestamps wraps as
 the encoding does

---
 tskv/src/tsm/codec/integer.rs   | 4 ++--
 tskv/src/tsm/codec/timestamp.rs | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/tskv/src/tsm/codec/integer.rs b/tskv/src/tsm/codec/integer.rs
index 6a15871..6bdc2b4 100644
--- a/tskv/src/tsm/codec/integer.rs
+++ b/tskv/src/tsm/codec/integer.rs
@@ -223,7 +223,7 @@ fn decode_simple8b_to_array(src: &[u8], bit_set: &NullBuffer) -> Result<ArrayRef
     let mut buf: [u8; 8] = [0; 8];
     buf.copy_from_slice(&src[0..8]);
     let mut first_val = true;
-    let mut next = 0;
+    let mut next: i64 = 0;
     let mut iter = res.iter();
     let mut builder = Int64Builder::with_capacity(bit_set.len());
     for is_valid in bit_set.iter() {
@@ -240,7 +240,7 @@ fn decode_simple8b_to_array(src: &[u8], bit_set: &NullBuffer) -> Result<ArrayRef
             continue;
         }
         if let Some(v) = iter.next() {
-            next += zig_zag_decode(*v);
+            next = next.wrapping_add(zig_zag_decode(*v));
             builder.append_value(next);
         }
     }
diff --git a/tskv/src/tsm/codec/timestamp.rs b/tskv/src/tsm/codec/timestamp.rs
index 4927b3b..fb8ef90 100644
--- a/tskv/src/tsm/codec/timestamp.rs
+++ b/tskv/src/tsm/codec/timestamp.rs
@@ -204,7 +204,7 @@ fn decode_uncompressed_to_array(src: &[u8], bit_set: &NullBuffer) -> Result<Arra
     }
 
     let mut i = 0;
-    let mut prev = 0;
+    let mut prev: i64 = 0;
     let mut buf: [u8; 8] = [0; 8];
 
     let mut builder = Int64Builder::new();
@@ -215,7 +215,7 @@ fn decode_uncompressed_to_array(src: &[u8], bit_set: &NullBuffer) -> Result<Arra
         }
         if i < src.len() {
             buf.copy_from_slice(&src[i..i + 8]);
-            prev += i64::from_be_bytes(buf);
+            prev = prev.wrapping_add(i64::from_be_bytes(buf));
             builder.append_value(prev);
             i += 8;
         }
@@ -282,11 +282,11 @@ fn decode_simple8b_to_array(src: &[u8], bit_set: &NullBuffer) -> Result<ArrayRef
                 builder.append_value(next);
                 is_first = false;
             } else if let Some(value) = value_iter.next() {
-                next += if scaler > 1 {
+                next = next.wrapping_add(if scaler > 1 {
                     (value * scaler) as i64
                 } else {
                     value as i64
-                };
+                });
                 builder.append_value(next);
             }
         } else {
-- 
2.43.0


From 0bb95ba6ab3ffbf0a1c16ed26662733c7b07d3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:52 +0000
Subject: [PATCH 23/70] fix: decode a WAL entry with the codec it was written
 with, not the configured one

---
 tskv/src/wal/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tskv/src/wal/mod.rs b/tskv/src/wal/mod.rs
index 19382a2..ea7bf9e 100644
--- a/tskv/src/wal/mod.rs
+++ b/tskv/src/wal/mod.rs
@@ -52,7 +52,7 @@ use self::reader::WalReader;
 use self::writer::WalWriter;
 use crate::error::{CommonSnafu, DecodeSnafu, EncodeSnafu};
 use crate::kv_option::WalOptions;
-use crate::tsm::codec::{get_str_codec, StringCodec};
+use crate::tsm::codec::{get_encoding, get_str_codec, StringCodec};
 pub use crate::wal::reader::print_wal_statistics;
 use crate::{error, file_utils, TskvResult};
 
@@ -246,7 +246,8 @@ impl WalEntryCodec {
 
     pub fn decode(&mut self, data: &[u8]) -> TskvResult<Option<MiniVec<u8>>> {
         self.buffer.truncate(0);
-        self.codec
+        // The entry may have been written under another `wal.compress` setting.
+        get_str_codec(get_encoding(data))
             .decode(data, &mut self.buffer)
             .context(error::DecodeSnafu)?;
         Ok(self.buffer.drain(..).next())
-- 
2.43.0


From 531027a16dd86387f01d921451097597007cf6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 24/70] fix: delta compaction starts its tombstone file afresh
 instead of appending to a failed one's

---
 tskv/src/tsm/tombstone.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tskv/src/tsm/tombstone.rs b/tskv/src/tsm/tombstone.rs
index 23be5d4..e828605 100644
--- a/tskv/src/tsm/tombstone.rs
+++ b/tskv/src/tsm/tombstone.rs
@@ -283,6 +283,9 @@ impl TsmTombstone {
         time_range: TimeRange,
     ) -> TskvResult<TimeRanges> {
         let tmp_path = tombstone_compact_tmp_path(&self.path)?;
+        // A compaction that failed may have left its tombstones, which must not be appended to.
+        LocalFileSystem::remove_if_exists(&tmp_path)
+            .map_err(|e| TskvError::FileSystemError { source: e })?;
         let mut writer = record_file::Writer::open(&tmp_path, TOMBSTONE_BUFFER_SIZE).await?;
         let mut cache = self.cache.write().clone();
         cache.insert(TombstoneField::All, time_range);
-- 
2.43.0


From 4c9d28f593eeb8c676a5d1a96decd325bcf90e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:36 +0000
Subject: [PATCH 25/70] fix: order the compacting files by series before the
 first series is taken

CompactState::next_series_id takes the current series from the first file and stops at the
first file that is at another series, so it relies on the files being sorted by their current
series. They were only sorted after the first iteration: with a first file whose first series
is not the smallest, the series of that file was compacted without its blocks in the other
files, then a second time from those files. The output file then held two column groups of one
series with overlapping times, which readers concatenate: rows duplicated, updates not applied.
---
 tskv/src/compaction/compact.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tskv/src/compaction/compact.rs b/tskv/src/compaction/compact.rs
index 689f2fe..82105c3 100644
--- a/tskv/src/compaction/compact.rs
+++ b/tskv/src/compaction/compact.rs
@@ -304,6 +304,9 @@ impl CompactState {
             compacting_files.push(f);
             compacting_tsm_file_idx += 1;
         }
+        // `next_series_id()` takes the series from the front of the files, so they have to be
+        // ordered by the series they are at from the beginning.
+        compacting_files.sort();
         let mut tsm_reader_to_compacting_file_map = vec![None::<_>; tsm_readers_len];
         for (i, f) in compacting_files.iter().enumerate() {
             tsm_reader_to_compacting_file_map[f.tsm_reader_index] = Some(i);
-- 
2.43.0


From 6d699c8ff8d2ed8d079bdf8538f6525dd0a7b5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:37 +0000
Subject: [PATCH 26/70] fix: mark the level-0 file picked alone into an
 overlapping level as compacting

Every other branch of the delta compaction picker marks the files it returns; this one did not,
so the same delta file could be picked again before the first compaction was applied, and its
rows written into the level twice.
---
 tskv/src/compaction/picker.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tskv/src/compaction/picker.rs b/tskv/src/compaction/picker.rs
index 5d23a5e..c4d8990 100644
--- a/tskv/src/compaction/picker.rs
+++ b/tskv/src/compaction/picker.rs
@@ -458,6 +458,7 @@ impl DeltaCompactionPicker {
                     if let Some(out_time_range) =
                         l0_file_remained_tr_first.intersect(&lv.time_range)
                     {
+                        *l0_file_compacting = true;
                         return Some(CompactReq {
                             compact_task,
                             version: version.clone(),
-- 
2.43.0


From f5d51280fe774a0046035a910c2e5da29917133d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:44 +0000
Subject: [PATCH 27/70] fix: keep writing to the current summary file until its
 rewritten one is renamed

---
 tskv/src/tsfamily/summary.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/tskv/src/tsfamily/summary.rs b/tskv/src/tsfamily/summary.rs
index 5693016..3b97605 100644
--- a/tskv/src/tsfamily/summary.rs
+++ b/tskv/src/tsfamily/summary.rs
@@ -202,8 +202,9 @@ impl Summary {
         LocalFileSystem::remove_if_exists(&tmp_file)
             .map_err(|e| TskvError::FileSystemError { source: e })?;
 
-        self.writer = Writer::open(&tmp_file, SUMMARY_BUFFER_SIZE).await?;
-        self.write_record(ve).await?;
+        // Until the new file is complete and renamed, `self.writer` stays with the current one.
+        let mut tmp_writer = Writer::open(&tmp_file, SUMMARY_BUFFER_SIZE).await?;
+        Self::write_version_edit(&mut tmp_writer, ve).await?;
 
         trace::info!("Rename summary file {:?} -> {:?}", tmp_file, summary_file,);
         std::fs::rename(tmp_file, summary_file).context(IOSnafu)?;
@@ -216,9 +217,12 @@ impl Summary {
     }
 
     pub async fn write_record(&mut self, ve: &VersionEdit) -> TskvResult<()> {
+        Self::write_version_edit(&mut self.writer, ve).await
+    }
+
+    async fn write_version_edit(writer: &mut Writer, ve: &VersionEdit) -> TskvResult<()> {
         let buf = ve.encode()?;
-        let _ = self
-            .writer
+        let _ = writer
             .write_record(
                 RecordDataVersion::V1.into(),
                 RecordDataType::Summary.into(),
@@ -226,7 +230,7 @@ impl Summary {
             )
             .await?;
 
-        self.writer.sync().await
+        writer.sync().await
     }
 
     pub fn file_id(&self) -> IDGenerator {
-- 
2.43.0


From 6e6229a65d254664ac7f95093da882d7eb2312f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:54 +0000
Subject: [PATCH 28/70] fix: keep ids of files deleted before a summary rewrite
 from being reused after a restart

---
 tskv/src/tsfamily/summary.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tskv/src/tsfamily/summary.rs b/tskv/src/tsfamily/summary.rs
index 3b97605..f0bf174 100644
--- a/tskv/src/tsfamily/summary.rs
+++ b/tskv/src/tsfamily/summary.rs
@@ -185,7 +185,9 @@ impl Summary {
             return Ok(());
         }
 
-        let ve = request.ts_family.read().await.build_version_edit();
+        let mut ve = request.ts_family.read().await.build_version_edit();
+        // Files deleted since may still be on the disk, do not reuse their ids after a restart.
+        ve.file_id = max(ve.file_id, self.file_id.next_id());
         self.rewrite_summary_file(&ve).await?;
 
         Ok(())
-- 
2.43.0


From 98e6fd6451adbf26600c14c1fc0c7418614dcce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:40 +0000
Subject: [PATCH 29/70] fix: find every record behind one torn by a crash, and
 do not read past the end of the file for a header

---
 tskv/src/record_file/reader.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tskv/src/record_file/reader.rs b/tskv/src/record_file/reader.rs
index 61af5cd..502f1d1 100644
--- a/tskv/src/record_file/reader.rs
+++ b/tskv/src/record_file/reader.rs
@@ -190,10 +190,16 @@ impl Reader {
     async fn find_record_header(&mut self) -> TskvResult<(usize, &[u8])> {
         loop {
             let magic_number_sli = self.read_buf(RECORD_MAGIC_NUMBER_LEN).await?;
+            if magic_number_sli.len() < RECORD_MAGIC_NUMBER_LEN {
+                return Err(TskvError::Eof);
+            }
             let magic_number = decode_be_u32(magic_number_sli);
             if magic_number == RECORD_MAGIC_NUMBER {
                 let pos = self.pos;
                 let header = self.read_buf(RECORD_HEADER_LEN).await?;
+                if header.len() < RECORD_HEADER_LEN {
+                    return Err(TskvError::Eof);
+                }
                 return Ok((pos, header));
             } else {
                 self.set_pos(self.pos + 1).await?;
@@ -237,11 +243,13 @@ impl Reader {
         let data = match self.read_buf(data_size as usize).await {
             Ok(record_bytes) => {
                 let record_data = record_bytes.to_vec();
-                if record_bytes.len() < data_size as usize {
+                if record_data.len() < data_size as usize {
                     trace::error!(
                         "Record file: Failed to read data: file_size: {}, Data size ({}) at pos {} is greater than bytes readed ({})",
-                        file_len, data_size, data_pos, record_bytes.len()
+                        file_len, data_size, data_pos, record_data.len()
                     );
+                    // The record may be torn by a crash, try to get header from the next pos.
+                    self.set_pos(header_pos + 1).await?;
                     return Err(RecordFileInvalidDataSizeSnafu {
                         pos: header_pos as u64,
                         len: data_size,
-- 
2.43.0


From c6634533aec21cb653ba0f817f9358ab9dd6453c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:40 +0000
Subject: [PATCH 30/70] fix: read an empty record at the end of a record file

---
 tskv/src/record_file/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tskv/src/record_file/reader.rs b/tskv/src/record_file/reader.rs
index 502f1d1..bc3bce4 100644
--- a/tskv/src/record_file/reader.rs
+++ b/tskv/src/record_file/reader.rs
@@ -215,7 +215,7 @@ impl Reader {
     pub async fn read_record(&mut self) -> TskvResult<Record> {
         // The previous position, if the previous error is not the HashCheckFailed,
         // this value will be updated.
-        if (self.pos + RECORD_HEADER_LEN) >= self.footer_pos as usize {
+        if (self.pos + RECORD_HEADER_LEN) > self.footer_pos as usize {
             return Err(TskvError::Eof);
         }
 
-- 
2.43.0


From de0bada89c5d1fbecbaeb7bb85ddc6a78ebd8e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:40 +0000
Subject: [PATCH 31/70] fix: write records behind the magic number of a file
 whose magic number was torn by a crash

---
 tskv/src/record_file/reader.rs | 2 +-
 tskv/src/record_file/writer.rs | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/tskv/src/record_file/reader.rs b/tskv/src/record_file/reader.rs
index bc3bce4..d8d4920 100644
--- a/tskv/src/record_file/reader.rs
+++ b/tskv/src/record_file/reader.rs
@@ -104,7 +104,7 @@ impl Reader {
         let file_len = file.len();
         let records_len = if footer_pos == file_len as u64 {
             // If there is no footer
-            file_len - FILE_MAGIC_NUMBER_LEN
+            file_len.saturating_sub(FILE_MAGIC_NUMBER_LEN)
         } else {
             file_len - FILE_FOOTER_LEN - FILE_MAGIC_NUMBER_LEN
         };
diff --git a/tskv/src/record_file/writer.rs b/tskv/src/record_file/writer.rs
index 3d8c488..4d3aafe 100644
--- a/tskv/src/record_file/writer.rs
+++ b/tskv/src/record_file/writer.rs
@@ -29,7 +29,9 @@ impl Writer {
             .open_file_writer(path, buf_size)
             .await
             .map_err(|e| TskvError::FileSystemError { source: e })?;
-        if file.is_empty() {
+        if file.len() < FILE_MAGIC_NUMBER_LEN {
+            // A crash may have left a part of the file magic number.
+            file.truncate(0).await.context(IOSnafu)?;
             // For new file, write file magic number, next write is at 4.
             file.write(&FILE_MAGIC_NUMBER.to_be_bytes())
                 .await
-- 
2.43.0


From df4b06ec4858926ae23bb994989acce83e961523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:54 +0000
Subject: [PATCH 32/70] fix: recover from a summary file whose last record was
 torn by a crash

---
 tskv/src/tsfamily/summary.rs | 4 ++++
 tskv/src/version_set.rs      | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/tskv/src/tsfamily/summary.rs b/tskv/src/tsfamily/summary.rs
index f0bf174..3bc84ff 100644
--- a/tskv/src/tsfamily/summary.rs
+++ b/tskv/src/tsfamily/summary.rs
@@ -75,6 +75,8 @@ impl Summary {
                     }
                 }
                 Err(TskvError::Eof) => break,
+                // A record torn by a crash, those behind it are still good.
+                Err(TskvError::RecordFileInvalidDataSize { .. }) => continue,
                 Err(TskvError::RecordFileHashCheckFailed { .. }) => continue,
                 Err(e) => {
                     return Err(e);
@@ -353,6 +355,8 @@ pub async fn print_summary_statistics(path: impl AsRef<Path>) {
                 }
             }
             Err(TskvError::Eof) => break,
+            // A record torn by a crash, those behind it are still good.
+            Err(TskvError::RecordFileInvalidDataSize { .. }) => continue,
             Err(TskvError::RecordFileHashCheckFailed { .. }) => continue,
             Err(err) => panic!("Errors when read summary file: {}", err),
         }
diff --git a/tskv/src/version_set.rs b/tskv/src/version_set.rs
index b86cbc3..4165841 100644
--- a/tskv/src/version_set.rs
+++ b/tskv/src/version_set.rs
@@ -92,6 +92,8 @@ pub async fn split_to_tsfamily(
                 }
             }
             Err(TskvError::Eof) => break,
+            // A record torn by a crash, those behind it are still good.
+            Err(TskvError::RecordFileInvalidDataSize { .. }) => continue,
             Err(TskvError::RecordFileHashCheckFailed { .. }) => continue,
             Err(e) => {
                 return Err(e);
-- 
2.43.0


From 6dc2b779d4c2303f22ca354b7891c8a1e005706a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:54 +0000
Subject: [PATCH 33/70] fix: load the tombstones behind a record torn by a
 crash

---
 tskv/src/tsm/tombstone.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tskv/src/tsm/tombstone.rs b/tskv/src/tsm/tombstone.rs
index e828605..e53710f 100644
--- a/tskv/src/tsm/tombstone.rs
+++ b/tskv/src/tsm/tombstone.rs
@@ -563,8 +563,8 @@ impl TsmTombstoneCache {
         Ok(Some(cache))
     }
 
-    /// Load tombstones from a record file, if `just_stop_if_error` is true,
-    /// errors except EOF only stops the read of remaining data and return.
+    /// Load tombstones from a record file, broken records are skipped.
+    /// If `just_stop_if_error` is true, other errors except EOF only stops the read of remaining data and return.
     pub async fn load_from(
         reader: &mut record_file::Reader,
         just_stop_if_error: bool,
@@ -577,6 +577,14 @@ impl TsmTombstoneCache {
             let record = match reader.read_record().await {
                 Ok(r) => r,
                 Err(TskvError::Eof) => break,
+                // A record torn by a crash, those appended behind it are still good.
+                Err(
+                    e @ (TskvError::RecordFileInvalidDataSize { .. }
+                    | TskvError::RecordFileHashCheckFailed { .. }),
+                ) => {
+                    error!("Skipping broken tombstone record: {e}");
+                    continue;
+                }
                 Err(e) => {
                     if just_stop_if_error {
                         error!("Invalid tombstone record: {e}");
-- 
2.43.0


From 17777c297bb4412b849df3919b14979479ad3b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:17 +0000
Subject: [PATCH 34/70] fix: do not take buffered bytes for those of another
 position after a failed read of a record file

---
 tskv/src/record_file/reader.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tskv/src/record_file/reader.rs b/tskv/src/record_file/reader.rs
index d8d4920..1bcf46f 100644
--- a/tskv/src/record_file/reader.rs
+++ b/tskv/src/record_file/reader.rs
@@ -318,6 +318,9 @@ impl Reader {
             self.pos,
             self.buf.len()
         );
+        // Nothing is buffered for the new position if the read fails.
+        self.buf_len = 0;
+        self.buf_use = 0;
         self.buf_len = self
             .file
             .read_at(self.pos, &mut self.buf)
@@ -325,7 +328,6 @@ impl Reader {
             .context(ReadFileSnafu {
                 path: self.path.clone(),
             })?;
-        self.buf_use = 0;
         Ok(())
     }
 
-- 
2.43.0


From 9543183d1d9f11af9fa9aa21416097dfb1802d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 35/70] fix: do not allocate what a broken record claims as its
 size

---
 tskv/src/record_file/reader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tskv/src/record_file/reader.rs b/tskv/src/record_file/reader.rs
index 1bcf46f..18385d4 100644
--- a/tskv/src/record_file/reader.rs
+++ b/tskv/src/record_file/reader.rs
@@ -332,6 +332,8 @@ impl Reader {
     }
 
     async fn read_buf(&mut self, size: usize) -> TskvResult<&[u8]> {
+        // A broken record may claim any size, there is nothing to read behind the end of the file.
+        let size = size.min((self.file_len as usize).saturating_sub(self.pos));
         if self.buf.len() < size {
             self.buf.resize(size, 0_u8);
         }
-- 
2.43.0


From 08c4ec1c8770ff3d1ee12c1d67f057dace45cc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 36/70] fix: the last raft entry is in the wal even if the
 entry cache is empty

---
 tskv/src/wal/wal_store.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tskv/src/wal/wal_store.rs b/tskv/src/wal/wal_store.rs
index 67b2941..05418a0 100644
--- a/tskv/src/wal/wal_store.rs
+++ b/tskv/src/wal/wal_store.rs
@@ -378,9 +378,13 @@ impl RaftEntryStorageInner {
 
     async fn wal_last_entry(&mut self) -> ReplicationResult<Option<RaftEntry>> {
         if let Some(entry) = self.entry_cache.last() {
-            Ok(Some(entry.clone()))
-        } else {
-            Ok(None)
+            return Ok(Some(entry.clone()));
+        }
+
+        // The cache may have been emptied by `del_after`, while older entries are still in wal.
+        match self.max_sequence() {
+            u64::MAX => Ok(None),
+            index => self.read_raft_entry(index).await,
         }
     }
 
-- 
2.43.0


From 79dde380f291268a5386ba563ae229043cc19cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 37/70] fix: raft entries that have been truncated do not come
 back

A failed truncation or removal was ignored, the reader kept serving buffered
entries that had been cut off, and a crash between the truncation of one file
and the removal of the files behind it left a hole in the log.
---
 tskv/src/wal/mod.rs       | 13 +++++++++----
 tskv/src/wal/wal_store.rs | 22 +++++++++++++++++++++-
 tskv/src/wal/writer.rs    |  7 ++++---
 3 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/tskv/src/wal/mod.rs b/tskv/src/wal/mod.rs
index ea7bf9e..f1a6154 100644
--- a/tskv/src/wal/mod.rs
+++ b/tskv/src/wal/mod.rs
@@ -149,14 +149,14 @@ impl VnodeWal {
 
     pub async fn truncate_wal_file(&mut self, file_id: u64, pos: u64) -> TskvResult<()> {
         if self.current_wal_id() == file_id {
-            self.current_wal.truncate(pos).await;
+            self.current_wal.truncate(pos).await?;
             self.current_wal.sync().await?;
             return Ok(());
         }
 
         let file_name = file_utils::make_wal_file(&self.wal_dir, file_id);
         let mut new_file = WalWriter::open(self.config.clone(), file_id, file_name).await?;
-        new_file.truncate(pos).await;
+        new_file.truncate(pos).await?;
         new_file.sync().await?;
 
         Ok(())
@@ -166,8 +166,13 @@ impl VnodeWal {
         for wal_id in del_ids {
             let file_path = file_utils::make_wal_file(self.wal_dir(), *wal_id);
             trace::info!("Removing wal file '{}'", file_path.display());
-            if let Err(e) = tokio::fs::remove_file(&file_path).await {
-                trace::error!("Failed to remove file '{}': {:?}", file_path.display(), e);
+            match tokio::fs::remove_file(&file_path).await {
+                Err(e) if e.kind() != std::io::ErrorKind::NotFound => {
+                    trace::error!("Failed to remove file '{}': {:?}", file_path.display(), e);
+                    // The entries of a file left behind would come back with the next restart.
+                    return Err(e).context(error::IOSnafu);
+                }
+                _ => {}
             }
         }
 
diff --git a/tskv/src/wal/wal_store.rs b/tskv/src/wal/wal_store.rs
index 05418a0..ef72941 100644
--- a/tskv/src/wal/wal_store.rs
+++ b/tskv/src/wal/wal_store.rs
@@ -319,6 +319,7 @@ impl RaftEntryStorageInner {
         }
 
         let mut delete_file_ids = vec![];
+        let mut truncate = None;
         for item in self.files_meta.iter_mut().rev() {
             if item.min_seq >= seq_no {
                 delete_file_ids.push(item.file_id);
@@ -328,7 +329,7 @@ impl RaftEntryStorageInner {
             if item.max_seq >= seq_no {
                 let pos = item.del_after(seq_no);
                 if pos > 0 {
-                    let _ = self.wal.truncate_wal_file(item.file_id, pos).await;
+                    truncate = Some((item.file_id, pos));
                 }
             }
 
@@ -339,11 +340,30 @@ impl RaftEntryStorageInner {
         self.files_meta
             .retain(|item| !delete_file_ids.contains(&item.file_id));
 
+        // Remove the newest file first and truncate the oldest one last, whenever
+        // it is interrupted there are no missing entries in the middle of the log.
         self.wal
             .rollback_wal_writer(&delete_file_ids)
             .await
             .map_err(|e| ReplicationError::RaftInternalErr { msg: e.to_string() })?;
 
+        if let Some((file_id, pos)) = truncate {
+            self.wal
+                .truncate_wal_file(file_id, pos)
+                .await
+                .map_err(|e| ReplicationError::RaftInternalErr { msg: e.to_string() })?;
+
+            // The old reader may have buffered the entries that have been cut off.
+            let reader = self
+                .wal
+                .wal_reader(file_id)
+                .await
+                .map_err(|e| ReplicationError::RaftInternalErr { msg: e.to_string() })?;
+            if let Some(item) = self.files_meta.last_mut() {
+                item.reader = reader;
+            }
+        }
+
         Ok(())
     }
 
diff --git a/tskv/src/wal/writer.rs b/tskv/src/wal/writer.rs
index ca26558..0329a7f 100644
--- a/tskv/src/wal/writer.rs
+++ b/tskv/src/wal/writer.rs
@@ -81,14 +81,15 @@ impl WalWriter {
         Ok(WalReader::new(record_reader, self.config.compress))
     }
 
-    pub async fn truncate(&mut self, size: u64) {
+    pub async fn truncate(&mut self, size: u64) -> TskvResult<()> {
         if self.size <= size {
-            return;
+            return Ok(());
         }
 
-        let _ = self.inner.truncate(size).await;
+        self.inner.truncate(size).await?;
 
         self.size = size;
+        Ok(())
     }
 
     pub fn id(&self) -> u64 {
-- 
2.43.0


From 477b3de9612c11fe9ca98348246abb410bf3dc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 38/70] fix: cut off the torn tail of a wal file when
 recovering

Otherwise the next record could complete the torn one. An I/O error ends the
recovery instead of being retried for ever.
---
 tskv/src/wal/reader.rs    |  8 ++++++--
 tskv/src/wal/wal_store.rs | 32 +++++++++++++++++++-------------
 2 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/tskv/src/wal/reader.rs b/tskv/src/wal/reader.rs
index 5aae170..1c95b2f 100644
--- a/tskv/src/wal/reader.rs
+++ b/tskv/src/wal/reader.rs
@@ -43,9 +43,13 @@ impl WalReader {
                     error!("next wal entry Record file hash check failed.");
                     continue;
                 }
-                Err(e) => {
+                Err(e @ TskvError::RecordFileInvalidDataSize { .. }) => {
                     error!("Error reading truncated wal: {:?}", e);
-                    return Err(WalTruncatedSnafu.build());
+                    continue;
+                }
+                Err(e) => {
+                    error!("Error reading wal: {:?}", e);
+                    return Err(e);
                 }
             }
         }
diff --git a/tskv/src/wal/wal_store.rs b/tskv/src/wal/wal_store.rs
index ef72941..cd2eaa3 100644
--- a/tskv/src/wal/wal_store.rs
+++ b/tskv/src/wal/wal_store.rs
@@ -468,11 +468,13 @@ impl RaftEntryStorageInner {
             }
 
             let mut record_reader = self.wal.wal_reader(wal_id).await?;
+            // The end of the last complete record.
+            let mut valid_len = record_reader.pos();
             loop {
-                let begin_pos = record_reader.pos();
                 let wal_record = record_reader.next_wal_entry().await;
                 match wal_record {
                     Ok(Some(record)) => {
+                        valid_len = record_reader.pos();
                         let res = self
                             .recover_record(wal_id, record, apply_id, vnode_store)
                             .await;
@@ -486,26 +488,30 @@ impl RaftEntryStorageInner {
                         }
                     }
 
-                    // If the wal file is truncated, handle it.
-                    Err(TskvError::RecordFileInvalidDataSize { .. }) => {
-                        info!(
-                            "truncate wal file: {} invalid size, start at: {}",
-                            file_name, begin_pos
-                        );
-                        self.wal.truncate_wal_file(wal_id, begin_pos).await?;
-                        break;
-                    }
-
                     Err(TskvError::Eof) | Ok(None) => {
                         break;
                     }
 
-                    Err(err) => {
+                    // The record is complete, but it is not an entry.
+                    Err(err @ (TskvError::Decode { .. } | TskvError::CommonError { .. })) => {
                         info!("recover wal {}, read entry failed: {}", file_name, err);
-                        continue;
+                        valid_len = record_reader.pos();
                     }
+
+                    Err(err) => return Err(err),
                 }
             }
+
+            // Cut off what a crash has left of the last record, or else the
+            // next record written behind it could complete it.
+            let record_reader = record_reader.take_record_reader();
+            if record_reader.footer().is_none() && valid_len < record_reader.len() {
+                info!(
+                    "truncate wal file: {} incomplete record, start at: {}",
+                    file_name, valid_len
+                );
+                self.wal.truncate_wal_file(wal_id, valid_len).await?;
+            }
         }
 
         Ok(())
-- 
2.43.0


From a4b4a107440494a824f6777638ddc5d58a80faf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:29 +0000
Subject: [PATCH 39/70] fix: order the data of a series by age when chunks
 overlap

The id of a file written by a compaction is newer than the ids of the memcache and of the delta
files that were there before, although the data in it is older: a query returned the compacted
value instead of the one written later.
---
 tskv/src/reader/mod.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/tskv/src/reader/mod.rs b/tskv/src/reader/mod.rs
index 45810b7..5e59e88 100644
--- a/tskv/src/reader/mod.rs
+++ b/tskv/src/reader/mod.rs
@@ -26,7 +26,7 @@ use crate::mem_cache::series_data::SeriesData;
 use crate::tsfamily::column_file::ColumnFile;
 use crate::tsm::chunk::Chunk;
 use crate::tsm::reader::TsmReader;
-use crate::{ColumnFileId, TskvError, TskvResult};
+use crate::{ColumnFileId, LevelId, TskvError, TskvResult};
 
 mod batch_builder;
 mod chunk;
@@ -306,8 +306,14 @@ impl PartialOrd<Self> for DataReference {
 }
 
 impl Ord for DataReference {
+    /// From the oldest data to the newest: a level-1~4 file only holds data that was compacted
+    /// from delta files, so it is older than the delta files and the memcaches of the same time,
+    /// even if its file id is newer than theirs.
     fn cmp(&self, other: &Self) -> Ordering {
-        self.file_id().cmp(&other.file_id())
+        other
+            .level()
+            .cmp(&self.level())
+            .then_with(|| self.file_id().cmp(&other.file_id()))
     }
 }
 
@@ -325,6 +331,14 @@ impl DataReference {
             DataReference::Memcache(_, _, cf_id) => *cf_id,
         }
     }
+
+    /// The level of the file. A memcache is going to be flushed to level-0.
+    pub fn level(&self) -> LevelId {
+        match self {
+            DataReference::Chunk(_, _, cf) => cf.level(),
+            DataReference::Memcache(..) => 0,
+        }
+    }
 }
 
 impl TimeRangeProvider for DataReference {
-- 
2.43.0


From be0f53fd7edaf4b7d8bc1b0346373d2a60ed6d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:29 +0000
Subject: [PATCH 40/70] fix: filter overlapping chunks after they are merged

Filtering (and pruning by statistics) before the merge dropped the newest value of a field, so that
the query saw the overwritten one, and dropped rows whose fields are spread over several chunks.
---
 tskv/src/reader/iterator.rs | 50 ++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/tskv/src/reader/iterator.rs b/tskv/src/reader/iterator.rs
index 7afb946..a3b3ec2 100644
--- a/tskv/src/reader/iterator.rs
+++ b/tskv/src/reader/iterator.rs
@@ -94,30 +94,19 @@ impl SeriesGroupBatchReaderFactory {
     /// ParallelMergeAdapter: schema=[{}]                               -------- 并行执行多个 stream
     ///   SchemaAlignmenter: schema=[{}]                                -------- 用 Null 值补齐缺失的 tag 列
     ///    SeriesReader: sid={}, schema=[{}]                            -------- 根据 series key 补齐对应的 tag 列
-    ///      DataMerger: schema=[{}]                                  -------- 合并相同 series 下时间段重叠的chunk数据
-    ///        SchemaAlignmenter:                                         -------- 用 Null 值补齐缺失的 Field 列
-    ///          DataFilter: expr=[{}], schema=[{}]                     -------- 根据下推的过滤条件精确过滤数据
+    ///      DataFilter: expr=[{}], schema=[{}]                         -------- 根据下推的过滤条件精确过滤合并后的数据
+    ///        DataMerger: schema=[{}]                                  -------- 合并相同 series 下时间段重叠的chunk数据
+    ///          SchemaAlignmenter:                                     -------- 用 Null 值补齐缺失的 Field 列
     ///            MemRowGroup/ChunkReader: sid={}, projection=[{}], schema=[{}]    -------- 读取单个chunk或memcache rowgroup的数据的指定列的数据
-    ///          DataFilter:
+    ///          SchemaAlignmenter:
     ///            MemRowGroup/ChunkReader [PageReader]
     ///          ......
-    ///      DataMerger: schema=[{}]
-    ///        SchemaAlignmenter:
-    ///          DataFilter: expr=[{}], schema=[{}]
-    ///            MemRowGroup/ChunkReader: sid={}, projection=[{}], schema=[{}]
-    ///          DataFilter
-    ///            MemRowGroup/ChunkReader [PageReader]
-    ///          ......
-    ///        ......
-    ///  SchemaAlignmenter: schema=[{}]                                                
+    ///      SchemaAlignmenter:
+    ///        DataFilter: expr=[{}], schema=[{}]                       -------- 没有与其它chunk重叠的chunk直接过滤
+    ///          MemRowGroup/ChunkReader: sid={}, projection=[{}], schema=[{}]
+    ///      ......
+    ///  SchemaAlignmenter: schema=[{}]
     ///    SeriesReader: sid={}, schema=[{}]
-    ///      DataMerger: schema=[{}]
-    ///        SchemaAlignmenter:
-    ///          DataFilter: expr=[{}], schema=[{}]
-    ///            MemRowGroup/ChunkReader: sid={}, projection=[{}], schema=[{}]
-    ///          DataFilter
-    ///            MemRowGroup/ChunkReader [PageReader]
-    ///          ......
     ///      ......
     ///    ......
     pub async fn create(
@@ -498,11 +487,18 @@ impl SeriesGroupBatchReaderFactory {
         let readers = grouped_chunks
             .into_iter()
             .map(|chunks| -> TskvResult<BatchReaderRef> {
+                let chunks = chunks.segments();
+                // 重叠的 chunk 合并之后才能过滤，否则会丢失其它 chunk 中用于覆盖旧值或补齐列的数据
+                let (chunk_predicate, merged_predicate) = if chunks.len() > 1 {
+                    (&None, predicate)
+                } else {
+                    (predicate, &None)
+                };
                 let chunk_readers = self.build_chunk_readers(
-                    chunks.segments(),
+                    chunks,
                     batch_size,
                     projection,
-                    predicate,
+                    chunk_predicate,
                     metrics,
                     aggregates,
                 )?;
@@ -532,7 +528,15 @@ impl SeriesGroupBatchReaderFactory {
                         Arc::new(CombinedBatchReader::new(chunk_readers))
                     };
 
-                    Ok(reader)
+                    // 合并后的数据过滤
+                    match merged_predicate {
+                        Some(predicate) => Ok(Arc::new(DataFilter::new(
+                            predicate.clone(),
+                            reader,
+                            self.filter_reader_metrics_set.clone(),
+                        ))),
+                        None => Ok(reader),
+                    }
                 } else {
                     Ok(Arc::new(CombinedBatchReader::new(chunk_readers)))
                 }
-- 
2.43.0


From d531b05b6670d215c52290254c5e2b7030fd5030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:59 +0000
Subject: [PATCH 41/70] fix: leave only top-level operands of a filter out for
 missing columns

Below NOT, CASE, = false etc. replacing an operand with true, or leaving it out, made the filter
stronger: rows of a file without the column were lost.
---
 tskv/src/reader/utils.rs | 78 ++++++++++++++++++++--------------------
 1 file changed, 39 insertions(+), 39 deletions(-)

diff --git a/tskv/src/reader/utils.rs b/tskv/src/reader/utils.rs
index f8dc075..f8ee767 100644
--- a/tskv/src/reader/utils.rs
+++ b/tskv/src/reader/utils.rs
@@ -9,10 +9,9 @@ use arrow_array::RecordBatch;
 use datafusion::common::tree_node::{TreeNode, TreeNodeRewriter, TreeNodeVisitor, VisitRecursion};
 use datafusion::error::DataFusionError;
 use datafusion::logical_expr::Operator;
-use datafusion::physical_plan::expressions::{BinaryExpr, Column, Literal};
+use datafusion::physical_plan::expressions::{BinaryExpr, Column};
 use datafusion::physical_plan::metrics::ExecutionPlanMetricsSet;
 use datafusion::physical_plan::PhysicalExpr;
-use datafusion::scalar::ScalarValue;
 use futures::{Stream, StreamExt};
 use models::predicate::domain::TimeRange;
 
@@ -190,10 +189,10 @@ impl Stream for CombinedRecordBatchStream {
 }
 
 /// Re-assign column indices referenced in predicate according to given schema.
-/// If a column is not found in the schema, it will be replaced.
+/// If a column is not found in the schema, the parts of the filter using it are left out.
 ///
 /// if we have a file, has [time, c1, c2],
-/// If the filter is 'c3 = 1', then it will be replaced by a expr 'true'.
+/// If the filter is 'c3 = 1 and c1 = 1', then it will be replaced by a expr 'c1 = 1'.
 pub fn reassign_predicate_columns(
     pred: Arc<Predicate>,
     file_schema: SchemaRef,
@@ -208,19 +207,46 @@ pub fn reassign_predicate_columns(
         None => Ok(None),
         Some(expr) => {
             let new_expr = expr.clone().rewrite(&mut rewriter)?;
-            let mut vistor = ColumnVistor {
-                part_schema: file_schema,
-                has_col_not_in_file: false,
-            };
-            new_expr.visit(&mut vistor)?;
-            if vistor.has_col_not_in_file {
-                return Ok(None);
-            }
-            Ok(Some(new_expr))
+            evaluable_part(&new_expr, &file_schema)
         }
     }
 }
 
+/// The part of the filter which only uses columns of the file: every row which passes the filter
+/// passes it. Returns `None` if there is no such part.
+///
+/// Only the operands of top-level `AND`s and `OR`s can be left out: below any other expression,
+/// e.g. `NOT`, an operand that is left out may turn a row which passes the filter into one which
+/// does not.
+fn evaluable_part(
+    expr: &Arc<dyn PhysicalExpr>,
+    file_schema: &SchemaRef,
+) -> TskvResult<Option<Arc<dyn PhysicalExpr>>, DataFusionError> {
+    if let Some(b_expr) = expr.as_any().downcast_ref::<BinaryExpr>() {
+        if matches!(b_expr.op(), Operator::And | Operator::Or) {
+            let left = evaluable_part(b_expr.left(), file_schema)?;
+            let right = evaluable_part(b_expr.right(), file_schema)?;
+            return Ok(match (left, right) {
+                (Some(left), Some(right)) => {
+                    Some(Arc::new(BinaryExpr::new(left, b_expr.op().to_owned(), right)))
+                }
+                (left, right) if matches!(b_expr.op(), Operator::And) => left.or(right),
+                _ => None,
+            });
+        }
+    }
+
+    let mut visitor = ColumnVistor {
+        part_schema: file_schema.clone(),
+        has_col_not_in_file: false,
+    };
+    expr.visit(&mut visitor)?;
+    if visitor.has_col_not_in_file {
+        return Ok(None);
+    }
+    Ok(Some(expr.clone()))
+}
+
 struct PredicateColumnsReassigner {
     file_schema: SchemaRef,
     full_schema: SchemaRef,
@@ -268,32 +294,6 @@ impl TreeNodeRewriter for PredicateColumnsReassigner {
                 }
             };
             return Ok(Arc::new(Column::new(column.name(), index)));
-        } else if let Some(b_expr) = expr.as_any().downcast_ref::<BinaryExpr>() {
-            let mut visitor = ColumnVistor {
-                part_schema: self.file_schema.clone(),
-                has_col_not_in_file: false,
-            };
-            b_expr.left().visit(&mut visitor)?;
-            let left = visitor.has_col_not_in_file;
-
-            visitor.has_col_not_in_file = false;
-            b_expr.right().visit(&mut visitor)?;
-            let right = visitor.has_col_not_in_file;
-
-            if matches!(b_expr.op(), Operator::And) {
-                return match (left, right) {
-                    (false, false) => Ok(expr),
-                    (true, true) => Ok(Arc::new(Literal::new(ScalarValue::Boolean(Some(true))))),
-                    (true, _) => Ok(b_expr.right().clone()),
-                    (_, true) => Ok(b_expr.left().clone()),
-                };
-            }
-            if matches!(b_expr.op(), Operator::Or) {
-                return match (left, right) {
-                    (false, false) => Ok(expr),
-                    _ => Ok(Arc::new(Literal::new(ScalarValue::Boolean(Some(true))))),
-                };
-            }
         }
 
         Ok(expr)
-- 
2.43.0


From 28eedf5f5d573f6fe1e527b5d8c85260a67b2286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:46 +0000
Subject: [PATCH 42/70] fix: the memory cache also gives back a row at the
 largest timestamp

The merge over the row groups took a smallest timestamp of i64::MAX for
the end of the data, so a row written at that timestamp was never read
from the cache and was lost at flush.
---
 tskv/src/mem_cache/series_data.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tskv/src/mem_cache/series_data.rs b/tskv/src/mem_cache/series_data.rs
index c10272d..b008221 100644
--- a/tskv/src/mem_cache/series_data.rs
+++ b/tskv/src/mem_cache/series_data.rs
@@ -305,14 +305,16 @@ impl<'a> Iterator for SeriesDedupMergeSortIterator<'a> {
 
     fn next(&mut self) -> Option<Self::Item> {
         let mut min_ts = i64::MAX;
+        let mut finished = true;
         for (_, data, _) in self.vec_pq.iter() {
             if let Some(data) = data {
+                finished = false;
                 if min_ts > data.ts {
                     min_ts = data.ts
                 }
             }
         }
-        if min_ts == i64::MAX {
+        if finished {
             return None;
         }
 
-- 
2.43.0


From 43417d1acf34fcacca7c219f4144dfc2521ebd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:46 +0000
Subject: [PATCH 43/70] fix: rows of one timestamp keep their age when they
 move in the memory cache

An insert puts a row before the rows of the same timestamp, so that the
newest comes first. Merging a written group into an earlier one, dropping
a column and cloning inserted the rows from first to last, which turned
the order round: an older value then replaced the newer one in reads and
at flush.
---
 tskv/src/mem_cache/row_data.rs    | 4 +++-
 tskv/src/mem_cache/series_data.rs | 9 +++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/tskv/src/mem_cache/row_data.rs b/tskv/src/mem_cache/row_data.rs
index 1ba8682..427da23 100644
--- a/tskv/src/mem_cache/row_data.rs
+++ b/tskv/src/mem_cache/row_data.rs
@@ -259,7 +259,9 @@ impl Clone for OrderedRowsData {
     fn clone(&self) -> Self {
         let mut clone_rows: OrderedSkipList<RowData> = OrderedSkipList::new();
         unsafe { clone_rows.sort_by(|a: &RowData, b: &RowData| a.partial_cmp(b).unwrap()) }
-        self.rows.iter().for_each(|row| {
+        // rows of the same timestamp are kept with the newest first, the oldest
+        // has to be inserted first.
+        self.rows.iter().rev().for_each(|row| {
             clone_rows.insert(row.clone());
         });
         Self { rows: clone_rows }
diff --git a/tskv/src/mem_cache/series_data.rs b/tskv/src/mem_cache/series_data.rs
index b008221..545b140 100644
--- a/tskv/src/mem_cache/series_data.rs
+++ b/tskv/src/mem_cache/series_data.rs
@@ -46,7 +46,10 @@ impl SeriesData {
         for item in self.groups.iter_mut().rev() {
             if item.schema.schema_version == group.schema.schema_version {
                 item.range.merge(&group.range);
-                group.rows.get_rows().into_iter().for_each(|row| {
+                // rows of the same timestamp are kept with the newest first, the
+                // oldest has to be inserted first.
+                let rows: Vec<RowData> = group.rows.get_rows().into_iter().collect();
+                rows.into_iter().rev().for_each(|row| {
                     item.rows.insert(row);
                 });
                 item.schema = group.schema;
@@ -69,7 +72,9 @@ impl SeriesData {
             };
             let mut rowdata_vec: Vec<RowData> = item.rows.get_ref_rows().iter().cloned().collect();
             item.rows.clear();
-            for row in rowdata_vec.iter_mut() {
+            // rows of the same timestamp are kept with the newest first, the
+            // oldest has to be inserted first.
+            for row in rowdata_vec.iter_mut().rev() {
                 if index < row.fields.len() {
                     row.fields.remove(index);
                 }
-- 
2.43.0


From f42df4c3adc50a97fb466b3dadec1822c8a25b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 44/70] fix: written rows only join the newest group of the
 memory cache

A written group was merged into any earlier group of the same schema
version. After a group of another version this broke the order of age the
reader relies on (the older value won), and after a column was dropped
(which keeps the version) the rows already there were read with the field
positions of the old layout, so that one column showed the values of
another. Rows now only join the last group, and only if the fields are
laid out alike; the newest schema is chosen by its version.
---
 tskv/src/mem_cache/series_data.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/tskv/src/mem_cache/series_data.rs b/tskv/src/mem_cache/series_data.rs
index 545b140..4a12aa9 100644
--- a/tskv/src/mem_cache/series_data.rs
+++ b/tskv/src/mem_cache/series_data.rs
@@ -43,8 +43,12 @@ impl SeriesData {
     pub fn write(&mut self, group: RowGroup) {
         self.range.merge(&group.range);
 
-        for item in self.groups.iter_mut().rev() {
-            if item.schema.schema_version == group.schema.schema_version {
+        // The groups are kept in the order they were written, so only the last one
+        // can take the new rows, and only if their fields are laid out alike.
+        if let Some(item) = self.groups.back_mut() {
+            if item.schema.schema_version == group.schema.schema_version
+                && item.schema.fields_id() == group.schema.fields_id()
+            {
                 item.range.merge(&group.range);
                 // rows of the same timestamp are kept with the newest first, the
                 // oldest has to be inserted first.
@@ -212,11 +216,10 @@ impl SeriesData {
             .collect()
     }
     pub fn get_schema(&self) -> Option<Arc<TskvTableSchema>> {
-        if let Some(item) = self.groups.back() {
-            return Some(item.schema.clone());
-        }
-
-        None
+        self.groups
+            .iter()
+            .max_by_key(|item| item.schema.schema_version)
+            .map(|item| item.schema.clone())
     }
 
     #[allow(clippy::type_complexity)]
-- 
2.43.0


From da57eb91a617462c5e6b8332da63cbff6e9272ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:16 +0000
Subject: [PATCH 45/70] fix: a write uses the schema of the table that was
 stored, not the one that was refused

---
 tskv/src/schema/schemas.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/tskv/src/schema/schemas.rs b/tskv/src/schema/schemas.rs
index 5527f06..2ce8742 100644
--- a/tskv/src/schema/schemas.rs
+++ b/tskv/src/schema/schemas.rs
@@ -163,11 +163,12 @@ impl DBschemas {
                 .create_table(&TableSchema::TsKvTableSchema(schema.clone()))
                 .await;
             if let Err(MetaError::TableAlreadyExists { .. }) = res.as_ref() {
-                self.check_field_type_or_else_add_impl(fb_schema, true)
-                    .await?;
-            } else {
-                res?;
+                // the table is the one that was stored, this schema is not
+                return self
+                    .check_field_type_or_else_add_impl(fb_schema, true)
+                    .await;
             }
+            res?;
             schema
         } else if schema_changed {
             schema.to_mut().schema_version += 1;
@@ -176,11 +177,11 @@ impl DBschemas {
                 .update_table(&TableSchema::TsKvTableSchema(schema.clone()))
                 .await;
             if let Err(MetaError::UpdateTableConflict { .. }) = &res {
-                self.check_field_type_or_else_add_impl(fb_schema, true)
-                    .await?;
-            } else {
-                res?;
+                return self
+                    .check_field_type_or_else_add_impl(fb_schema, true)
+                    .await;
             }
+            res?;
             schema
         } else {
             // Safety
-- 
2.43.0


From b5fe774306f4774a45909e67ce69f128c41ef80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:16 +0000
Subject: [PATCH 46/70] fix: an added column takes its id from the table as it
 is now

---
 query_server/query/src/execution/ddl/alter_table.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/query_server/query/src/execution/ddl/alter_table.rs b/query_server/query/src/execution/ddl/alter_table.rs
index 72c64f1..556c16a 100644
--- a/query_server/query/src/execution/ddl/alter_table.rs
+++ b/query_server/query/src/execution/ddl/alter_table.rs
@@ -50,7 +50,15 @@ impl DDLDefinitionTask for AlterTableTask {
 
         let operator_info = match &self.stmt.alter_action {
             AlterTableAction::AddColumn { table_column } => {
-                let table_column = table_column.to_owned();
+                // the table may have changed since the statement was planned
+                if schema.contains_column(&table_column.name) {
+                    return Err(QueryError::ColumnAlreadyExists {
+                        table: schema.name.clone(),
+                        column: table_column.name.clone(),
+                    });
+                }
+                let mut table_column = table_column.to_owned();
+                table_column.id = schema.next_column_id();
                 schema.add_column(table_column.clone());
                 schema.schema_version += 1;
 
-- 
2.43.0


From 8c93fc4b7c08d278a288a7ffc83d3dbb54991b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:16 +0000
Subject: [PATCH 47/70] fix: a column is not renamed to the name of another

---
 query_server/query/src/execution/ddl/alter_table.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/query_server/query/src/execution/ddl/alter_table.rs b/query_server/query/src/execution/ddl/alter_table.rs
index 556c16a..f1e373b 100644
--- a/query_server/query/src/execution/ddl/alter_table.rs
+++ b/query_server/query/src/execution/ddl/alter_table.rs
@@ -106,6 +106,12 @@ impl DDLDefinitionTask for AlterTableTask {
             } => {
                 let alter_schema_func =
                     |schema: &mut TskvTableSchema, old_column_name: &str, new_name: &str| {
+                        if schema.contains_column(new_name) {
+                            return Err(QueryError::ColumnAlreadyExists {
+                                table: schema.name.clone(),
+                                column: new_name.to_owned(),
+                            });
+                        }
                         if let Some(old_column) = schema.column(old_column_name) {
                             let new_column = TableColumn::new(
                                 old_column.id,
-- 
2.43.0


From b52b9be98b8135243294b178bf3f8dac543c97e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:16 +0000
Subject: [PATCH 48/70] fix: altering the encoding of a column leaves its id
 and type as they are now

---
 query_server/query/src/execution/ddl/alter_table.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/query_server/query/src/execution/ddl/alter_table.rs b/query_server/query/src/execution/ddl/alter_table.rs
index f1e373b..b4356c5 100644
--- a/query_server/query/src/execution/ddl/alter_table.rs
+++ b/query_server/query/src/execution/ddl/alter_table.rs
@@ -82,6 +82,16 @@ impl DDLDefinitionTask for AlterTableTask {
                 column_name,
                 new_column,
             } => {
+                // only the encoding changes, whatever the column has become since the
+                // statement was planned
+                let encoding = new_column.encoding;
+                let mut new_column = schema
+                    .column(column_name)
+                    .ok_or_else(|| QueryError::ColumnNotFound {
+                        col: column_name.to_owned(),
+                    })?
+                    .clone();
+                new_column.encoding = encoding;
                 if !new_column.encoding_valid() {
                     return Err(QueryError::EncodingType {
                         encoding_type: new_column.encoding,
-- 
2.43.0


From ed39982bc40c2d6d4c7ca124c444b377b4f38220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:07 +0000
Subject: [PATCH 49/70] fix: a time window before the start time holds the time
 it is made for

---
 .../src/extension/analyse/transform_time_window.rs     | 10 +++++++---
 .../query/src/extension/expr/window/time_window.rs     |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/query_server/query/src/extension/analyse/transform_time_window.rs b/query_server/query/src/extension/analyse/transform_time_window.rs
index e6d6578..0703935 100644
--- a/query_server/query/src/extension/analyse/transform_time_window.rs
+++ b/query_server/query/src/extension/analyse/transform_time_window.rs
@@ -272,11 +272,15 @@ pub fn make_window_expr(i: i64, window: &TimeWindow) -> Expr {
         window_duration.clone(),
     );
 
+    // the remainder is negative before the start time, the second one is not
+    let remainder = modulo(
+        minus(i64_time.clone(), i64_start_time),
+        slide_duration.clone(),
+    );
     let last_start = minus(
-        i64_time.clone(),
+        i64_time,
         modulo(
-            // maybe overflow 2262-04-11 23:47:16.854775807 + <slide_duration>
-            plus(minus(i64_time, i64_start_time), slide_duration.clone()),
+            plus(remainder, slide_duration.clone()),
             slide_duration.clone(),
         ),
     );
diff --git a/query_server/query/src/extension/expr/window/time_window.rs b/query_server/query/src/extension/expr/window/time_window.rs
index 2c57900..ecb8aba 100644
--- a/query_server/query/src/extension/expr/window/time_window.rs
+++ b/query_server/query/src/extension/expr/window/time_window.rs
@@ -189,7 +189,7 @@ fn sliding_window(
     i: i64,
 ) -> DFResult<(i64, i64)> {
     let i64_start_time = start_time % window_duration;
-    let last_start = i64_time - (i64_time - i64_start_time + slide_duration) % slide_duration;
+    let last_start = i64_time - (i64_time - i64_start_time).rem_euclid(slide_duration);
 
     let window_start = last_start - i * slide_duration;
     let window_end = window_start + window_duration;
-- 
2.43.0


From 048348dacf9fcb9d7b399dbad621f2b16a0efb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:07 +0000
Subject: [PATCH 50/70] fix: time windows slide from their start time also when
 no whole number of slides make a window

---
 .../query/src/extension/analyse/transform_time_window.rs        | 2 +-
 query_server/query/src/extension/expr/window/time_window.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/query_server/query/src/extension/analyse/transform_time_window.rs b/query_server/query/src/extension/analyse/transform_time_window.rs
index 0703935..bc226e5 100644
--- a/query_server/query/src/extension/analyse/transform_time_window.rs
+++ b/query_server/query/src/extension/analyse/transform_time_window.rs
@@ -269,7 +269,7 @@ pub fn make_window_expr(i: i64, window: &TimeWindow) -> Expr {
     let i64_time = cast(ns_time, DataType::Int64);
     let i64_start_time = modulo(
         cast(start_time.clone(), DataType::Int64),
-        window_duration.clone(),
+        slide_duration.clone(),
     );
 
     // the remainder is negative before the start time, the second one is not
diff --git a/query_server/query/src/extension/expr/window/time_window.rs b/query_server/query/src/extension/expr/window/time_window.rs
index ecb8aba..f83e645 100644
--- a/query_server/query/src/extension/expr/window/time_window.rs
+++ b/query_server/query/src/extension/expr/window/time_window.rs
@@ -188,7 +188,7 @@ fn sliding_window(
     start_time: i64,
     i: i64,
 ) -> DFResult<(i64, i64)> {
-    let i64_start_time = start_time % window_duration;
+    let i64_start_time = start_time % slide_duration;
     let last_start = i64_time - (i64_time - i64_start_time).rem_euclid(slide_duration);
 
     let window_start = last_start - i * slide_duration;
-- 
2.43.0


From bb7634ab269dce59feeea1d1b6b3893cbaab023e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:31 +0000
Subject: [PATCH 51/70] fix: an empty field value in a line is an error, no
 panic, and not dropped

---
 common/protocol_parser/src/line_protocol/parser.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/common/protocol_parser/src/line_protocol/parser.rs b/common/protocol_parser/src/line_protocol/parser.rs
index 377d829..5c94c51 100644
--- a/common/protocol_parser/src/line_protocol/parser.rs
+++ b/common/protocol_parser/src/line_protocol/parser.rs
@@ -284,7 +284,7 @@ impl Parser {
                 return Err(Error::UnexpectedEnd { pos: val_idx.0 });
             }
 
-            if key_idx.1 > key_idx.0 && data_bytes.len() > val_idx.0 {
+            if !skip_space {
                 let key = escape(&data_bytes[key_idx.0..key_idx.1], key_idx.2)?;
                 let val = parse_field_value(&data_bytes[val_idx.0..], val_idx.2)?;
                 line.fields.push((key, val));
@@ -326,11 +326,11 @@ fn escape(s: &[u8], need_unescape: bool) -> Result<Cow<str>> {
 }
 
 fn parse_field_value(buf: &[u8], need_unescape: bool) -> Result<FieldValue> {
-    match buf[0] {
-        b't' | b'T' => parse_boolean_field(buf, true),
-        b'f' | b'F' => parse_boolean_field(buf, false),
-        b'"' => parse_string_field(buf, need_unescape),
-        b'+' | b'-' | b'0'..=b'9' => parse_numeric_field(buf),
+    match buf.first() {
+        Some(b't' | b'T') => parse_boolean_field(buf, true),
+        Some(b'f' | b'F') => parse_boolean_field(buf, false),
+        Some(b'"') => parse_string_field(buf, need_unescape),
+        Some(b'+' | b'-' | b'0'..=b'9') => parse_numeric_field(buf),
         _ => Err(Error::FieldValue {
             content: u8_slice_to_str_unchecked(buf).to_owned(),
         }),
-- 
2.43.0


From ce1038a1367bcd20c5dc8a94d8e495b517093cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:31 +0000
Subject: [PATCH 52/70] fix: the first character of a table or a field key may
 be escaped

---
 common/protocol_parser/src/line_protocol/parser.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/common/protocol_parser/src/line_protocol/parser.rs b/common/protocol_parser/src/line_protocol/parser.rs
index 5c94c51..acd7cbf 100644
--- a/common/protocol_parser/src/line_protocol/parser.rs
+++ b/common/protocol_parser/src/line_protocol/parser.rs
@@ -80,7 +80,8 @@ impl Parser {
                         continue;
                     }
 
-                    key_idx = (index, 0, false);
+                    next_escape = char == b'\\';
+                    key_idx = (index, 0, next_escape);
                     status = ParseStatus::Table;
                 }
 
@@ -88,7 +89,8 @@ impl Parser {
                     if skip_space {
                         if char != b' ' {
                             skip_space = false;
-                            key_idx = (index, 0, false);
+                            next_escape = char == b'\\';
+                            key_idx = (index, 0, next_escape);
                             status = ParseStatus::FieldKey;
                         }
                         continue;
@@ -140,7 +142,8 @@ impl Parser {
                     if skip_space {
                         if char != b' ' {
                             skip_space = false;
-                            key_idx = (index, 0, false);
+                            next_escape = char == b'\\';
+                            key_idx = (index, 0, next_escape);
                             status = ParseStatus::FieldKey;
                         }
                         continue;
-- 
2.43.0


From a3a014ff1cad5ae1ade362e7fdfed8fdd2f70bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:31 +0000
Subject: [PATCH 53/70] fix: a line without timestamp may end in spaces

---
 common/protocol_parser/src/line_protocol/parser.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/common/protocol_parser/src/line_protocol/parser.rs b/common/protocol_parser/src/line_protocol/parser.rs
index acd7cbf..f2c6333 100644
--- a/common/protocol_parser/src/line_protocol/parser.rs
+++ b/common/protocol_parser/src/line_protocol/parser.rs
@@ -197,7 +197,17 @@ impl Parser {
 
                 ParseStatus::FieldValue => {
                     if skip_space {
-                        if char != b' ' {
+                        if char == b'\r' || char == b'\n' {
+                            // spaces at the end of the line, and no timestamp
+                            skip_space = false;
+                            line.timestamp = self.default_time;
+                            line.sort_dedup_and_hash();
+                            lines.push(line);
+
+                            line = Line::default();
+                            key_idx = (0, 0, false);
+                            status = ParseStatus::LineBegin;
+                        } else if char != b' ' {
                             skip_space = false;
                             key_idx = (index, 0, false);
                             status = ParseStatus::Timestamp;
-- 
2.43.0


From e4c03f38d87771f9f293411b6c7ea71370c43cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:31 +0000
Subject: [PATCH 54/70] fix: a timestamp at the end of the data is a number to
 its end

---
 common/protocol_parser/src/line_protocol/parser.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/common/protocol_parser/src/line_protocol/parser.rs b/common/protocol_parser/src/line_protocol/parser.rs
index f2c6333..207a707 100644
--- a/common/protocol_parser/src/line_protocol/parser.rs
+++ b/common/protocol_parser/src/line_protocol/parser.rs
@@ -282,9 +282,8 @@ impl Parser {
             let timestamp = if key_idx.0 == 0 {
                 self.default_time
             } else {
-                let (timestamp, _) = atoi_simd::parse_until_invalid(&data_bytes[key_idx.0..])
-                    .map_err(|_| Error::Timestamp { pos: key_idx.0 })?;
-                timestamp
+                atoi_simd::parse(&data_bytes[key_idx.0..])
+                    .map_err(|_| Error::Timestamp { pos: key_idx.0 })?
             };
 
             line.timestamp = timestamp;
-- 
2.43.0


From 46f41af1ca7a72b86166e3825d3862b64fba8adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:31 +0000
Subject: [PATCH 55/70] fix: a table or a tag value that has an escape may hold
 '=' as others may

---
 common/protocol_parser/src/line_protocol/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/common/protocol_parser/src/line_protocol/parser.rs b/common/protocol_parser/src/line_protocol/parser.rs
index 207a707..ade7089 100644
--- a/common/protocol_parser/src/line_protocol/parser.rs
+++ b/common/protocol_parser/src/line_protocol/parser.rs
@@ -324,10 +324,13 @@ fn escape(s: &[u8], need_unescape: bool) -> Result<Cow<str>> {
     let mut ownd_bytes = Vec::with_capacity(s.len());
     for (&v1, &v2) in s.iter().tuple_windows() {
         if v2 == b',' || v2 == b' ' || v2 == b'=' {
-            if v1 != b'\\' {
+            if v1 == b'\\' {
+                continue;
+            }
+            // a table or a tag value holds '=' also without escape
+            if v2 != b'=' {
                 return Err(Error::InvaildSyntax);
             }
-            continue;
         }
         ownd_bytes.push(v1);
     }
-- 
2.43.0


From e893375df8a266c94ae238a78ef694b5bf665a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:31 +0000
Subject: [PATCH 56/70] fix: a line that ends before its first field value does
 not go on in the next

---
 common/protocol_parser/src/line_protocol/parser.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/common/protocol_parser/src/line_protocol/parser.rs b/common/protocol_parser/src/line_protocol/parser.rs
index ade7089..6271732 100644
--- a/common/protocol_parser/src/line_protocol/parser.rs
+++ b/common/protocol_parser/src/line_protocol/parser.rs
@@ -64,6 +64,19 @@ impl Parser {
         for index in 0..data_len {
             let char = data_bytes[index];
             // println!("---char :{} [{}]", char, char as char);
+            if (char == b'\r' || char == b'\n')
+                && matches!(
+                    status,
+                    ParseStatus::Table
+                        | ParseStatus::TagKey
+                        | ParseStatus::TagValue
+                        | ParseStatus::FieldKey
+                )
+            {
+                // the line ends before its first field value
+                return Err(Error::UnexpectedEnd { pos: index });
+            }
+
             match status {
                 ParseStatus::LineBegin => {
                     if comment && (char == b'\r' || char == b'\n') {
-- 
2.43.0


From 2823b1a52ebda0b9de970aac2e3daa0ad28fa153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:15 +0000
Subject: [PATCH 57/70] fix: a tag and a field of one name do not share a
 column of a batch

---
 common/models/src/mutable_batch.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/common/models/src/mutable_batch.rs b/common/models/src/mutable_batch.rs
index 908cc1c..4175243 100644
--- a/common/models/src/mutable_batch.rs
+++ b/common/models/src/mutable_batch.rs
@@ -33,7 +33,16 @@ impl<'a> MutableBatch<'a> {
         col_type: PhysicalCType,
     ) -> ModelResult<&mut Column<'a>> {
         let column_idx = match self.column_names.get(name) {
-            Some(column_idx) => *column_idx,
+            Some(column_idx) => {
+                // a name stands for one column, a tag and a field cannot share it
+                if self.columns[*column_idx].column_type != col_type {
+                    return Err(CommonSnafu {
+                        msg: format!("column '{}' is written with different types", name),
+                    }
+                    .build());
+                }
+                *column_idx
+            }
             None => {
                 let column_idx = self.columns.len();
                 self.column_names.insert(name.to_string(), column_idx);
-- 
2.43.0


From 4f706dda06919d57c9150f431fb6f19eea8fb882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:29 +0000
Subject: [PATCH 58/70] fix: replaying a log entry keeps what tables and
 columns dropped since leave of it; no value goes to a field of another type

---
 tskv/src/database.rs           |  37 +++++++---
 tskv/src/mem_cache/row_data.rs | 119 ++++++++++++++++++++++++++-------
 2 files changed, 122 insertions(+), 34 deletions(-)

diff --git a/tskv/src/database.rs b/tskv/src/database.rs
index 6aaaa88..e74b4c8 100644
--- a/tskv/src/database.rs
+++ b/tskv/src/database.rs
@@ -217,13 +217,18 @@ impl Database {
 
             let fb_schema = FbSchema::from_fb_column(table_name, columns)?;
             let schema = if strict_write {
-                self.schemas
+                let schema = self
+                    .schemas
                     .get_table_schema(fb_schema.table)
                     .await
-                    .context(SchemaSnafu)?
-                    .context(TableNotFoundSnafu {
-                        table: fb_schema.table.to_string(),
-                    })?
+                    .context(SchemaSnafu)?;
+                if schema.is_none() && recover_from_wal {
+                    // the table was dropped after the entry was logged
+                    continue;
+                }
+                schema.context(TableNotFoundSnafu {
+                    table: fb_schema.table.to_string(),
+                })?
             } else {
                 self.schemas
                     .check_field_type_or_else_add(&fb_schema)
@@ -242,7 +247,14 @@ impl Database {
             .await?;
             // every row produces a sid
             debug_assert_eq!(num_rows, sids.len());
-            self.build_row_data(&columns, schema.clone(), &mut map, precision, &sids)?;
+            self.build_row_data(
+                &columns,
+                schema.clone(),
+                &mut map,
+                precision,
+                &sids,
+                recover_from_wal,
+            )?;
         }
         Ok(map)
     }
@@ -254,6 +266,7 @@ impl Database {
         map: &mut HashMap<SeriesId, (SeriesKey, RowGroup)>,
         precision: Precision,
         sids: &[(u32, SeriesKey)],
+        recover_from_wal: bool,
     ) -> TskvResult<()> {
         let mut sid_map: HashMap<u32, (SeriesKey, Vec<usize>)> = HashMap::new();
         for (row_count, (sid, series_key)) in sids.iter().enumerate() {
@@ -264,8 +277,16 @@ impl Database {
             buf_and_row_idx.1.push(row_count);
         }
         for (sid, (series_key_buf, row_idx)) in sid_map.into_iter() {
-            let rows =
-                RowData::point_to_row_data(table_schema.as_ref(), precision, columns, row_idx)?;
+            let rows = RowData::point_to_row_data(
+                table_schema.as_ref(),
+                precision,
+                columns,
+                row_idx,
+                recover_from_wal,
+            )?;
+            if rows.is_empty() {
+                continue;
+            }
             let mut row_group = RowGroup {
                 schema: table_schema.clone(),
                 rows: OrderedRowsData::new(),
diff --git a/tskv/src/mem_cache/row_data.rs b/tskv/src/mem_cache/row_data.rs
index 427da23..0ae6228 100644
--- a/tskv/src/mem_cache/row_data.rs
+++ b/tskv/src/mem_cache/row_data.rs
@@ -1,11 +1,13 @@
 use std::cmp;
+use std::collections::HashMap;
 use std::mem::size_of_val;
 
 use arrow_buffer::{BooleanBuffer, Buffer};
 use flatbuffers::{ForwardsUOffset, Vector};
 use minivec::MiniVec;
 use models::field_value::FieldVal;
-use models::schema::tskv_table_schema::TskvTableSchema;
+use models::schema::tskv_table_schema::{PhysicalCType, TskvTableSchema};
+use models::{ColumnId, PhysicalDType};
 use protos::models::{Column, FieldType};
 use skiplist::OrderedSkipList;
 use snafu::OptionExt;
@@ -32,6 +34,7 @@ impl RowData {
         from_precision: Precision,
         columns: &Vector<ForwardsUOffset<Column>>,
         row_idx: Vec<usize>,
+        recover_from_wal: bool,
     ) -> TskvResult<Vec<RowData>> {
         let fields_id = schema.fields_id();
         let mut res = Vec::with_capacity(row_idx.len());
@@ -56,14 +59,21 @@ impl RowData {
                                 continue;
                             }
                             let val = column.int_values()?.get(row_count);
-                            match schema.column(column_name) {
+                            match Self::field_index(schema, fields_id, &column)? {
                                 None => {
                                     error!("column {} not found in schema", column_name);
+                                    if !recover_from_wal {
+                                        return Err(CommonSnafu {
+                                            reason: format!(
+                                                "no field {} of this type in table {}",
+                                                column_name, schema.name
+                                            ),
+                                        }
+                                        .build());
+                                    }
                                 }
-                                Some(column) => {
-                                    let field_id = column.id;
-                                    let field_idx = fields_id.get(&field_id).unwrap();
-                                    fields[*field_idx] = Some(FieldVal::Integer(val));
+                                Some(field_idx) => {
+                                    fields[field_idx] = Some(FieldVal::Integer(val));
                                     has_fields = true;
                                 }
                             }
@@ -79,14 +89,21 @@ impl RowData {
                                 continue;
                             }
                             let val = column.float_values()?.get(row_count);
-                            match schema.column(column_name) {
+                            match Self::field_index(schema, fields_id, &column)? {
                                 None => {
                                     error!("column {} not found in schema", column_name);
+                                    if !recover_from_wal {
+                                        return Err(CommonSnafu {
+                                            reason: format!(
+                                                "no field {} of this type in table {}",
+                                                column_name, schema.name
+                                            ),
+                                        }
+                                        .build());
+                                    }
                                 }
-                                Some(column) => {
-                                    let field_id = column.id;
-                                    let field_idx = fields_id.get(&field_id).unwrap();
-                                    fields[*field_idx] = Some(FieldVal::Float(val));
+                                Some(field_idx) => {
+                                    fields[field_idx] = Some(FieldVal::Float(val));
                                     has_fields = true;
                                 }
                             }
@@ -102,14 +119,21 @@ impl RowData {
                                 continue;
                             }
                             let val = column.uint_values()?.get(row_count);
-                            match schema.column(column_name) {
+                            match Self::field_index(schema, fields_id, &column)? {
                                 None => {
                                     error!("column {} not found in schema", column_name);
+                                    if !recover_from_wal {
+                                        return Err(CommonSnafu {
+                                            reason: format!(
+                                                "no field {} of this type in table {}",
+                                                column_name, schema.name
+                                            ),
+                                        }
+                                        .build());
+                                    }
                                 }
-                                Some(column) => {
-                                    let field_id = column.id;
-                                    let field_idx = fields_id.get(&field_id).unwrap();
-                                    fields[*field_idx] = Some(FieldVal::Unsigned(val));
+                                Some(field_idx) => {
+                                    fields[field_idx] = Some(FieldVal::Unsigned(val));
                                     has_fields = true;
                                 }
                             }
@@ -125,14 +149,21 @@ impl RowData {
                                 continue;
                             }
                             let val = column.bool_values()?.get(row_count);
-                            match schema.column(column_name) {
+                            match Self::field_index(schema, fields_id, &column)? {
                                 None => {
                                     error!("column {} not found in schema", column_name);
+                                    if !recover_from_wal {
+                                        return Err(CommonSnafu {
+                                            reason: format!(
+                                                "no field {} of this type in table {}",
+                                                column_name, schema.name
+                                            ),
+                                        }
+                                        .build());
+                                    }
                                 }
-                                Some(column) => {
-                                    let field_id = column.id;
-                                    let field_idx = fields_id.get(&field_id).unwrap();
-                                    fields[*field_idx] = Some(FieldVal::Boolean(val));
+                                Some(field_idx) => {
+                                    fields[field_idx] = Some(FieldVal::Boolean(val));
                                     has_fields = true;
                                 }
                             }
@@ -148,14 +179,21 @@ impl RowData {
                                 continue;
                             }
                             let val = column.string_values()?.get(row_count);
-                            match schema.column(column_name) {
+                            match Self::field_index(schema, fields_id, &column)? {
                                 None => {
                                     error!("column {} not found in schema", column_name);
+                                    if !recover_from_wal {
+                                        return Err(CommonSnafu {
+                                            reason: format!(
+                                                "no field {} of this type in table {}",
+                                                column_name, schema.name
+                                            ),
+                                        }
+                                        .build());
+                                    }
                                 }
-                                Some(column) => {
-                                    let field_id = column.id;
-                                    let field_idx = fields_id.get(&field_id).unwrap();
-                                    fields[*field_idx] =
+                                Some(field_idx) => {
+                                    fields[field_idx] =
                                         Some(FieldVal::Bytes(MiniVec::from(val.as_bytes())));
                                     has_fields = true;
                                 }
@@ -171,6 +209,10 @@ impl RowData {
             }
 
             if !has_fields {
+                if recover_from_wal {
+                    // all columns it had were dropped after it was logged
+                    continue;
+                }
                 return Err(FieldsIsEmptySnafu.build());
             }
 
@@ -192,6 +234,31 @@ impl RowData {
         Ok(res)
     }
 
+    /// The index of the field that the values of a column go to, if the schema has
+    /// a field of this name and type.
+    fn field_index(
+        schema: &TskvTableSchema,
+        fields_id: &HashMap<ColumnId, usize>,
+        column: &Column,
+    ) -> TskvResult<Option<usize>> {
+        let data_type = match column.field_type() {
+            FieldType::Integer => PhysicalDType::Integer,
+            FieldType::Float => PhysicalDType::Float,
+            FieldType::Unsigned => PhysicalDType::Unsigned,
+            FieldType::Boolean => PhysicalDType::Boolean,
+            FieldType::String => PhysicalDType::String,
+            _ => return Ok(None),
+        };
+        let field = match schema.column(column.name_ext()?) {
+            Some(field) => field,
+            None => return Ok(None),
+        };
+        if field.column_type.to_physical_type() != PhysicalCType::Field(data_type) {
+            return Ok(None);
+        }
+        Ok(fields_id.get(&field.id).copied())
+    }
+
     pub fn size(&self) -> usize {
         let mut size = 0;
         for i in self.fields.iter() {
-- 
2.43.0


From d142efe8c0aa4842ba6cba91f4bccbbb2136412a Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 02:00:18 +0000
Subject: [PATCH 59/70] fix: an INSERT routes a row of a series where a line of
 it is routed

---
 coordinator/src/service.rs | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/coordinator/src/service.rs b/coordinator/src/service.rs
index 5b2d77e..089d6ad 100644
--- a/coordinator/src/service.rs
+++ b/coordinator/src/service.rs
@@ -671,8 +671,7 @@ impl Coordinator for CoordService {
         let table_name = table_schema.name.as_str();
         let columns = record_batch.columns();
         for idx in 0..record_batch.num_rows() {
-            let mut hasher = BkdrHasher::new();
-            hasher.hash_with(table_name.as_bytes());
+            let mut tags = Vec::new();
             let mut ts = i64::MAX;
             let mut has_ts = false;
             let mut has_fileds = false;
@@ -698,18 +697,19 @@ impl Coordinator for CoordService {
                     has_ts = true;
                 }
                 if matches!(tskv_schema_column.column_type, ColumnType::Tag) {
-                    let value = column
-                        .as_any()
-                        .downcast_ref::<StringArray>()
-                        .ok_or_else(|| {
-                            CommonSnafu {
-                                msg: format!("column {} is not StringArray", name),
-                            }
-                            .build()
-                        })?
-                        .value(idx);
-                    hasher.hash_with(name.as_bytes());
-                    hasher.hash_with(value.as_bytes());
+                    let values =
+                        column
+                            .as_any()
+                            .downcast_ref::<StringArray>()
+                            .ok_or_else(|| {
+                                CommonSnafu {
+                                    msg: format!("column {} is not StringArray", name),
+                                }
+                                .build()
+                            })?;
+                    if !values.is_null(idx) {
+                        tags.push((name, values.value(idx)));
+                    }
                 }
 
                 if let ColumnType::Field(_) = tskv_schema_column.column_type {
@@ -733,6 +733,14 @@ impl Coordinator for CoordService {
                 return Err(FieldsIsEmptySnafu.build());
             }
 
+            // the same bytes in the same order as for a line of this series
+            tags.sort();
+            let mut hasher = BkdrHasher::new();
+            hasher.hash_with(table_name.as_bytes());
+            for (name, value) in tags {
+                hasher.hash_with(name.as_bytes());
+                hasher.hash_with(value.as_bytes());
+            }
             let hash = hasher.number();
             let info = meta_client
                 .locate_replication_set_for_write(db, hash, ts)
-- 
2.43.0


From ea3e0ddb8245645193bf5b5f1cda4ee4d8787333 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 02:00:18 +0000
Subject: [PATCH 60/70] fix: a log written as JSON is routed by the hash of its
 series

---
 common/protocol_parser/src/json_protocol/parser.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/common/protocol_parser/src/json_protocol/parser.rs b/common/protocol_parser/src/json_protocol/parser.rs
index 1eb6f63..2157856 100644
--- a/common/protocol_parser/src/json_protocol/parser.rs
+++ b/common/protocol_parser/src/json_protocol/parser.rs
@@ -551,11 +551,5 @@ pub fn parse_to_line<'a>(
         }
     }
 
-    Ok(Line {
-        hash_id: 0,
-        table: Cow::Borrowed(table),
-        tags,
-        fields,
-        timestamp,
-    })
+    Ok(Line::new(Cow::Borrowed(table), tags, fields, timestamp))
 }
-- 
2.43.0


From 35dcd0da76fb5278b1954f9e30faf16558a8ce02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:01 +0000
Subject: [PATCH 61/70] fix: an OpenTSDB body is read line by line, with its
 whole values and tags, or refused

---
 common/protocol_parser/src/lib.rs             | 167 ++----------------
 .../protocol_parser/src/open_tsdb/parser.rs   | 126 +++++--------
 2 files changed, 60 insertions(+), 233 deletions(-)

diff --git a/common/protocol_parser/src/lib.rs b/common/protocol_parser/src/lib.rs
index fc58010..9115347 100644
--- a/common/protocol_parser/src/lib.rs
+++ b/common/protocol_parser/src/lib.rs
@@ -13,8 +13,6 @@ pub type Result<T, E = Error> = std::result::Result<T, E>;
 pub use json_protocol::parser::Error as JsonLogError;
 pub use line_protocol::parser::Error as LineProtocolError;
 
-type NextTagRes<'a> = Result<Option<(Vec<(Cow<'a, str>, Cow<'a, str>)>, usize)>>;
-
 pub mod json_protocol;
 pub mod line_protocol;
 pub mod lines_convert;
@@ -126,166 +124,23 @@ impl<'a> Line<'_> {
     }
 }
 
-fn check_pos_valid(buf: &str, pos: usize) -> Result<()> {
-    if pos < buf.len() {
-        return Ok(());
-    }
-    Err(Error::Parse {
-        pos,
-        content: String::from(buf),
-    })
-}
-
-fn next_metric(buf: &str) -> Option<(&str, usize)> {
+/// The parts of `buf` between the separators that no backslash precedes.
+fn split_unescaped(buf: &str, separator: char) -> Vec<&str> {
+    let mut parts = Vec::new();
+    let mut begin = 0;
     let mut escaped = false;
-    let mut exists_metric = false;
-    let (mut tok_begin, mut tok_end) = (0, buf.len());
-    let mut i = 0;
-    for c in buf.chars() {
-        // Measurement begin character
-        if c == '\\' {
-            escaped = true;
-            if !exists_metric {
-                exists_metric = true;
-                tok_begin = i;
-            }
-            i += c.len_utf8();
-            continue;
-        }
-        if exists_metric {
-            // Measurement end character
-            if c == ' ' {
-                tok_end = i;
-                break;
-            }
-        } else {
-            // Measurement begin character
-            if c.is_alphanumeric() {
-                exists_metric = true;
-                tok_begin = i;
-            }
-        }
+    for (i, c) in buf.char_indices() {
         if escaped {
             escaped = false;
-        }
-
-        i += c.len_utf8();
-    }
-    if exists_metric {
-        Some((&buf[tok_begin..tok_end], tok_end + 1))
-    } else {
-        None
-    }
-}
-
-fn is_tagset_character(c: char) -> bool {
-    c.is_alphanumeric() || c == '\\'
-}
-
-fn next_tag_set(buf: &str) -> NextTagRes {
-    let mut escaped = false;
-    let mut exists_tag_set = false;
-    let mut tok_offsets = [0_usize; 3];
-    let mut tok_end = 0_usize;
-
-    let mut tag_set = Vec::new();
-    let mut i = 0;
-    for c in buf.chars() {
-        // TagSet begin character
-        if !escaped && c == '\\' {
+        } else if c == '\\' {
             escaped = true;
-            if !exists_tag_set {
-                exists_tag_set = true;
-                tok_offsets[0] = i;
-            }
-            i += c.len_utf8();
-            continue;
+        } else if c == separator {
+            parts.push(&buf[begin..i]);
+            begin = i + separator.len_utf8();
         }
-        if exists_tag_set {
-            if !escaped && c == '=' {
-                tok_offsets[1] = i;
-                if buf.len() <= i + 1 {
-                    return Ok(None);
-                }
-                tok_offsets[2] = i + 1;
-            }
-            if !escaped && c == ',' {
-                tag_set.push((
-                    Cow::Borrowed(&buf[tok_offsets[0]..tok_offsets[1]]),
-                    Cow::Borrowed(&buf[tok_offsets[2]..i]),
-                ));
-                if buf.len() <= i + 1 {
-                    return Ok(None);
-                }
-                tok_offsets[0] = i + 1;
-            }
-
-            // TagSet end character
-            if !escaped && c == ' ' {
-                tok_end = i;
-                break;
-            }
-        } else {
-            // TagSet begin character
-            if is_tagset_character(c) {
-                exists_tag_set = true;
-                tok_offsets[0] = i;
-            }
-        }
-        if escaped {
-            escaped = false;
-        }
-
-        i += c.len_utf8();
-    }
-    if exists_tag_set {
-        if tok_end == 0 {
-            tok_end = buf.len();
-            if buf.ends_with('\n') {
-                tok_end -= 1;
-            }
-        }
-        if tok_offsets[0] == tok_offsets[1] {
-            return Err(Error::Common {
-                content: format!(
-                    "tag missing name in next_tag_set, buf : {}",
-                    buf.get(0..30).unwrap_or(buf)
-                ),
-            });
-        }
-        tag_set.push((
-            Cow::Borrowed(&buf[tok_offsets[0]..tok_offsets[1]]),
-            Cow::Borrowed(&buf[tok_offsets[2]..tok_end]),
-        ));
-        Ok(Some((tag_set, tok_end + 1)))
-    } else {
-        Ok(None)
-    }
-}
-
-fn next_value(buf: &str) -> Option<(&str, usize)> {
-    let mut exists_timestamp = false;
-    let (mut tok_begin, mut tok_end) = (0, buf.len());
-    for (i, c) in buf.chars().enumerate() {
-        if exists_timestamp {
-            // Timestamp end character
-            if !c.is_numeric() {
-                tok_end = i;
-                break;
-            }
-        } else {
-            // Timestamp begin character
-            if c == '-' || c.is_numeric() {
-                tok_begin = i;
-                exists_timestamp = true;
-            }
-        }
-    }
-    if exists_timestamp {
-        Some((&buf[tok_begin..tok_end], tok_end + 1))
-    } else {
-        None
     }
+    parts.push(&buf[begin..]);
+    parts
 }
 
 #[cfg(test)]
diff --git a/common/protocol_parser/src/open_tsdb/parser.rs b/common/protocol_parser/src/open_tsdb/parser.rs
index e1a2327..4ca0012 100644
--- a/common/protocol_parser/src/open_tsdb/parser.rs
+++ b/common/protocol_parser/src/open_tsdb/parser.rs
@@ -3,108 +3,80 @@ use std::borrow::Cow;
 use protos::FieldValue;
 
 use crate::Error::Common;
-use crate::{check_pos_valid, next_metric, next_tag_set, next_value, Error, Line, Result};
+use crate::{split_unescaped, Error, Line, Result};
 
 const OPEN_TSDB_DEFAULT_FIELD: &str = "value";
 
 pub struct Parser {
-    default_time: i64,
     // TODO Some statistics here
 }
 
 impl Parser {
-    pub fn new(default_time: i64) -> Self {
-        Self { default_time }
+    /// Every point has a time of its own.
+    pub fn new(_default_time: i64) -> Self {
+        Self {}
     }
 
     pub fn parse<'a>(&self, lines: &'a str) -> Result<Vec<Line<'a>>> {
         let mut ret: Vec<Line> = Vec::new();
-        let mut pos = 0_usize;
-        while let Some((mut line, offset)) = self.next_line(lines, pos)? {
-            line.sort_dedup_and_hash();
-            ret.push(line);
-            pos += offset;
+        for line_raw in lines.split('\n') {
+            if let Some(mut line) = self.next_line(line_raw)? {
+                line.sort_dedup_and_hash();
+                ret.push(line);
+            }
         }
         Ok(ret)
     }
 
-    fn next_line<'a>(&self, buf: &'a str, position: usize) -> Result<Option<(Line<'a>, usize)>> {
-        if position > buf.len() {
+    /// One line: metric, time, value and tags, with spaces between them.
+    fn next_line<'a>(&self, buf: &'a str) -> Result<Option<Line<'a>>> {
+        let mut tokens = split_unescaped(buf.strip_suffix('\r').unwrap_or(buf), ' ');
+        tokens.retain(|token| !token.is_empty());
+        if tokens.is_empty() {
             return Ok(None);
         }
-
-        let start_pos = position;
-        let mut pos = position;
-        let metric = if let Some(m) = next_metric(&buf[pos..]) {
-            pos += m.1;
-            Cow::Borrowed(m.0)
-        } else {
-            return Ok(None);
-        };
-        check_pos_valid(buf, pos)?;
-
-        let timestamp = if pos < buf.len() {
-            if let Some(t) = next_value(&buf[pos..]) {
-                let timestamp = t.0.parse::<i64>().map_err(|e| Error::Parse {
-                    pos,
-                    content: format!("{}: '{}'", e, buf),
-                })?;
-                pos += t.1;
-                timestamp
-            } else {
-                self.default_time
-            }
-        } else {
-            self.default_time
-        };
-
-        let value = if pos < buf.len() {
-            if let Some(t) = next_value(&buf[pos..]) {
-                let value = t.0.parse::<f64>().map_err(|e| Error::Parse {
-                    pos,
-                    content: format!("{}: '{}'", e, buf),
-                })?;
-                pos += t.1;
-                value
-            } else {
-                return Err(Error::MissingField {
-                    field: OPEN_TSDB_DEFAULT_FIELD.to_string(),
-                    buf: String::from(buf),
-                });
-            }
-        } else {
-            return Err(Error::Parse {
-                pos,
-                content: String::from(buf),
+        if tokens.len() < 4 {
+            return Err(Error::MissingField {
+                field: OPEN_TSDB_DEFAULT_FIELD.to_string(),
+                buf: String::from(buf),
             });
-        };
+        }
+
+        let metric = Cow::Borrowed(tokens[0]);
 
-        let fields = vec![(
-            Cow::Borrowed(OPEN_TSDB_DEFAULT_FIELD),
-            FieldValue::F64(value),
-        )];
+        let timestamp = tokens[1].parse::<i64>().map_err(|e| Error::Parse {
+            pos: 1,
+            content: format!("{}: '{}'", e, buf),
+        })?;
 
-        check_pos_valid(buf, pos)?;
+        let value = tokens[2].parse::<f64>().map_err(|e| Error::Parse {
+            pos: 2,
+            content: format!("{}: '{}'", e, buf),
+        })?;
 
-        let mut tags = vec![];
-        while let Some(t) = next_tag_set(&buf[pos..])? {
-            pos += t.1;
-            tags.extend(t.0);
-            if check_pos_valid(buf, pos).is_err() {
-                break;
+        let mut tags = Vec::with_capacity(tokens.len() - 3);
+        for token in tokens.iter().skip(3) {
+            for tag_raw in split_unescaped(token, ',') {
+                let tag = split_unescaped(tag_raw, '=');
+                if tag.len() != 2 || tag[0].is_empty() || tag[1].is_empty() {
+                    return Err(Common {
+                        content: format!("invalid tag: '{}' in '{}'", tag_raw, buf),
+                    });
+                }
+                tags.push((Cow::Borrowed(tag[0]), Cow::Borrowed(tag[1])));
             }
         }
 
-        Ok(Some((
-            Line {
-                hash_id: 0,
-                table: metric,
-                timestamp,
-                fields,
-                tags,
-            },
-            pos - start_pos,
-        )))
+        Ok(Some(Line {
+            hash_id: 0,
+            table: metric,
+            timestamp,
+            fields: vec![(
+                Cow::Borrowed(OPEN_TSDB_DEFAULT_FIELD),
+                FieldValue::F64(value),
+            )],
+            tags,
+        }))
     }
 
     pub fn parse_tcp_opentsdb<'a>(&self, buf: &'a [u8]) -> Result<(Vec<Line<'a>>, usize)> {
-- 
2.43.0


From efe37328893a8110e77eb72bfb4302963e804281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:01 +0000
Subject: [PATCH 62/70] fix: a telnet put is taken when its line is complete,
 at its time in milliseconds

---
 .../protocol_parser/src/open_tsdb/parser.rs   | 34 +++++++++++------
 main/src/tcp/tcp_service.rs                   | 37 +++++++++++--------
 2 files changed, 43 insertions(+), 28 deletions(-)

diff --git a/common/protocol_parser/src/open_tsdb/parser.rs b/common/protocol_parser/src/open_tsdb/parser.rs
index 4ca0012..c951c9e 100644
--- a/common/protocol_parser/src/open_tsdb/parser.rs
+++ b/common/protocol_parser/src/open_tsdb/parser.rs
@@ -79,29 +79,39 @@ impl Parser {
         }))
     }
 
+    /// Parses the complete lines at the start of `buf`, up to the first that is not a put.
+    ///
+    /// Returns their points and the number of bytes they take; what follows belongs to the next
+    /// call. It is an error if the first line is not a put.
     pub fn parse_tcp_opentsdb<'a>(&self, buf: &'a [u8]) -> Result<(Vec<Line<'a>>, usize)> {
         let mut ret: Vec<Line> = Vec::new();
         let mut pos = 0;
-        let lines = std::str::from_utf8(buf).map_err(|e| Error::Common {
-            content: format!("Invalid Point: {}", e),
-        })?;
-        let lines = lines.split("\r\n").collect::<Vec<&str>>();
-        for line_raw in lines {
-            if let Some(mut line) = self.next_tcp_line(line_raw)? {
-                line.sort_dedup_and_hash();
-                ret.push(line);
-                pos += line_raw.len() + 2;
+        while let Some(len) = buf[pos..].iter().position(|b| *b == b'\n') {
+            let line = std::str::from_utf8(&buf[pos..pos + len])
+                .map_err(|e| Error::Common {
+                    content: format!("Invalid Point: {}", e),
+                })
+                .and_then(|line_raw| self.next_tcp_line(line_raw));
+            match line {
+                Ok(Some(mut line)) => {
+                    line.sort_dedup_and_hash();
+                    ret.push(line);
+                }
+                Ok(None) => {}
+                Err(e) if pos == 0 => return Err(e),
+                Err(_) => break,
             }
+            pos += len + 1;
         }
         Ok((ret, pos))
     }
 
     fn next_tcp_line<'a>(&self, buf: &'a str) -> Result<Option<Line<'a>>> {
-        if buf.is_empty() {
+        let tokens = buf.split_whitespace().collect::<Vec<&str>>();
+        if tokens.is_empty() {
             return Ok(None);
         }
-        let tokens = buf.split_whitespace().collect::<Vec<&str>>();
-        let cmd = if tokens.is_empty() { "" } else { tokens[0] };
+        let cmd = tokens[0];
         // OpenTSDB command is case sensitive, verified in real OpenTSDB.
         if cmd != "put" {
             return Err(Common {
diff --git a/main/src/tcp/tcp_service.rs b/main/src/tcp/tcp_service.rs
index 1058c2e..02a2313 100644
--- a/main/src/tcp/tcp_service.rs
+++ b/main/src/tcp/tcp_service.rs
@@ -15,6 +15,17 @@ use crate::spi::service::Service;
 
 const MILLISECOND_TIMESTAMP: i64 = 1_000_000_000_000;
 
+/// The time of a put, in seconds or a smaller unit, in milliseconds.
+fn millisecond_timestamp(mut timestamp: i64) -> i64 {
+    while timestamp / MILLISECOND_TIMESTAMP > 10 {
+        timestamp /= 10;
+    }
+    while timestamp != 0 && timestamp / MILLISECOND_TIMESTAMP == 0 {
+        timestamp *= 10;
+    }
+    timestamp
+}
+
 pub struct TcpService {
     handle: Option<ServiceHandle<server::Result<()>>>,
     coord: CoordinatorRef,
@@ -58,27 +69,21 @@ impl Service for TcpService {
                         {
                             break 'inner;
                         }
-                        if let Ok((mut lines, pos)) = parser.parse_tcp_opentsdb(&buffer) {
-                            if lines.is_empty() {
-                                continue;
-                            }
-
+                        let (mut lines, pos) =
+                            parser
+                                .parse_tcp_opentsdb(&buffer)
+                                .map_err(|e| Error::Common {
+                                    reason: format!("opentsdb put failed: {}", e),
+                                })?;
+                        if !lines.is_empty() {
                             lines.iter_mut().for_each(|line| {
-                                let mut bit = line.timestamp / MILLISECOND_TIMESTAMP;
-                                while bit > 10 {
-                                    line.timestamp /= 10;
-                                    bit = line.timestamp / MILLISECOND_TIMESTAMP;
-                                }
-                                while bit == 0 {
-                                    line.timestamp *= 10;
-                                    bit = line.timestamp / MILLISECOND_TIMESTAMP;
-                                }
+                                line.timestamp = millisecond_timestamp(line.timestamp);
                             });
                             coord
                                 .write_lines(
                                     DEFAULT_CATALOG,
                                     DEFAULT_DATABASE,
-                                    Precision::NS,
+                                    Precision::MS,
                                     lines,
                                     None,
                                 )
@@ -86,8 +91,8 @@ impl Service for TcpService {
                                 .map_err(|e| Error::Common {
                                     reason: format!("open opentsdb write point failed: {:?}", e),
                                 })?;
-                            buffer.drain(..pos);
                         }
+                        buffer.drain(..pos);
                     }
                     Ok::<(), Error>(())
                 });
-- 
2.43.0


From fb925a3c6defc52b17408b5c50102d65d5a943f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:16 +0000
Subject: [PATCH 63/70] fix: a tag of a JSON log has the value of its string,
 not its JSON escapes

---
 common/protocol_parser/src/json_protocol/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/common/protocol_parser/src/json_protocol/parser.rs b/common/protocol_parser/src/json_protocol/parser.rs
index 2157856..e196d4c 100644
--- a/common/protocol_parser/src/json_protocol/parser.rs
+++ b/common/protocol_parser/src/json_protocol/parser.rs
@@ -505,8 +505,11 @@ pub fn parse_to_line<'a>(
     let mut fields = vec![];
     for (key, value) in value.get_fields() {
         if tag_columns.contains(&key.as_str()) {
-            let value = value.to_string().trim_matches('"').to_owned();
-            tags.push((Cow::Borrowed(key.as_str()), Cow::Owned(value)));
+            let value = match value {
+                serde_json::Value::String(value) => Cow::Borrowed(value.as_str()),
+                value => Cow::Owned(value.to_string()),
+            };
+            tags.push((Cow::Borrowed(key.as_str()), value));
         } else if time_column.eq(key) {
             match value {
                 serde_json::Value::String(timestamp_str) => {
-- 
2.43.0


From 9db9df5c6b0c4e92a37c5acef9e2f7f771cd38c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:11 +0000
Subject: [PATCH 64/70] fix: a span of an OTLP trace has its own attributes,
 events and links only

---
 common/protocol_parser/src/json_protocol/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/protocol_parser/src/json_protocol/parser.rs b/common/protocol_parser/src/json_protocol/parser.rs
index e196d4c..ef1acfd 100644
--- a/common/protocol_parser/src/json_protocol/parser.rs
+++ b/common/protocol_parser/src/json_protocol/parser.rs
@@ -264,6 +264,8 @@ pub fn parse_protobuf_to_otlptrace(req: Bytes) -> Result<Vec<JsonProtocol>> {
             serde_json::Value::String(resource_span.schema_url),
         );
         for scope_span in resource_span.scope_spans {
+            // what a scope says is about its own spans only
+            let mut fields = fields.clone();
             prefix.push("ScopeSpans/".to_string());
             if let Some(scope) = scope_span.scope {
                 prefix.push("InstrumentationScope/".to_string());
@@ -303,6 +305,8 @@ pub fn parse_protobuf_to_otlptrace(req: Bytes) -> Result<Vec<JsonProtocol>> {
                 serde_json::Value::String(scope_span.schema_url),
             );
             for span in scope_span.spans {
+                // what a span says is about that span only
+                let mut fields = fields.clone();
                 prefix.push("Span/".to_string());
                 fields.insert(
                     prefix.join("") + "trace_id",
-- 
2.43.0


From c09ac5b5f5875576b9f503c8560bdcdf5920dc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:49 +0000
Subject: [PATCH 65/70] fix: a Prometheus query selects the series that its
 matchers accept

---
 query_server/query/src/prom/remote_server.rs | 103 ++++++++++++++-----
 1 file changed, 75 insertions(+), 28 deletions(-)

diff --git a/query_server/query/src/prom/remote_server.rs b/query_server/query/src/prom/remote_server.rs
index 54f499e..5f72b33 100644
--- a/query_server/query/src/prom/remote_server.rs
+++ b/query_server/query/src/prom/remote_server.rs
@@ -279,7 +279,7 @@ fn build_sql_with_table(
     } = query;
 
     let mut tables = Vec::new();
-    let mut filters = Vec::with_capacity(matchers.len());
+    let mut label_filters = Vec::with_capacity(matchers.len());
 
     for m in matchers {
         if METRIC_NAME_LABEL == m.name {
@@ -299,10 +299,11 @@ fn build_sql_with_table(
                 Type::Re => {
                     // Filter table names through regular expressions,
                     // Get the schema of the remaining tables.
-                    let pattern =
-                        Regex::new(&m.value).map_err(|err| QueryError::InvalidRemoteReadReq {
+                    let pattern = Regex::new(&anchored(&m.value)).map_err(|err| {
+                        QueryError::InvalidRemoteReadReq {
                             source: Box::new(err),
-                        })?;
+                        }
+                    })?;
 
                     tables = meta
                         .list_tables(ctx.database())
@@ -330,40 +331,86 @@ fn build_sql_with_table(
             continue;
         }
 
-        match m.r#type() {
-            Type::Eq => {
-                filters.push(format!("{} = '{}'", m.name, m.value));
-            }
-            Type::Neq => {
-                filters.push(format!("{} != '{}'", m.name, m.value));
-            }
-            Type::Re => {
-                filters.push(format!("{} ~ '{}'", m.name, m.value));
-            }
-            Type::Nre => {
-                filters.push(format!("{} !~ '{}'", m.name, m.value));
-            }
-        }
+        let (filter, accepts_empty) = label_filter(m.r#type(), &m.name, &m.value)?;
+        label_filters.push((m.name, filter, accepts_empty));
     }
-    // Convert to ns timestamp
-    filters.push(format!("time >= {}", start_timestamp_ms * 1_000_000));
-    filters.push(format!("time <= {}", end_timestamp_ms * 1_000_000));
 
-    let result = tables
-        .into_iter()
-        .map(|table| SqlWithTable {
+    let mut result = Vec::with_capacity(tables.len());
+    'tables: for table in tables {
+        let mut filters = Vec::with_capacity(label_filters.len() + 2);
+        for (name, filter, accepts_empty) in &label_filters {
+            let is_label = table
+                .column(name)
+                .is_some_and(|column| column.column_type.is_tag());
+            match (is_label, *accepts_empty) {
+                (true, true) => filters.push(format!("({} OR {} IS NULL)", filter, ident(name))),
+                (true, false) => filters.push(filter.clone()),
+                // no series of the table has the label
+                (false, true) => {}
+                (false, false) => continue 'tables,
+            }
+        }
+        // Convert to ns timestamp
+        filters.push(format!(
+            "time >= {}",
+            start_timestamp_ms.saturating_mul(1_000_000)
+        ));
+        filters.push(format!(
+            "time <= {}",
+            end_timestamp_ms.saturating_mul(1_000_000)
+        ));
+
+        result.push(SqlWithTable {
             sql: format!(
-                "SELECT * FROM \"{}\" WHERE {} order by time",
-                table.name,
+                "SELECT * FROM {} WHERE {} order by time",
+                ident(&table.name),
                 filters.join(" AND ")
             ),
             table,
-        })
-        .collect();
+        });
+    }
 
     Ok(result)
 }
 
+/// The condition of a matcher on a label that is there, and whether the matcher accepts the empty
+/// value: a label that is not there has that value.
+fn label_filter(r#type: Type, name: &str, value: &str) -> QueryResult<(String, bool)> {
+    let regex_accepts_empty = || {
+        Regex::new(&anchored(value))
+            .map(|pattern| pattern.is_match(""))
+            .map_err(|err| QueryError::InvalidRemoteReadReq {
+                source: Box::new(err),
+            })
+    };
+    let name = ident(name);
+    match r#type {
+        Type::Eq => Ok((format!("{} = {}", name, literal(value)), value.is_empty())),
+        Type::Neq => Ok((format!("{} != {}", name, literal(value)), !value.is_empty())),
+        Type::Re => Ok((
+            format!("{} ~ {}", name, literal(&anchored(value))),
+            regex_accepts_empty()?,
+        )),
+        Type::Nre => Ok((
+            format!("{} !~ {}", name, literal(&anchored(value))),
+            !regex_accepts_empty()?,
+        )),
+    }
+}
+
+/// The patterns of Prometheus match whole values.
+fn anchored(pattern: &str) -> String {
+    format!("^(?:{})$", pattern)
+}
+
+fn ident(name: &str) -> String {
+    format!("\"{}\"", name.replace('"', "\"\""))
+}
+
+fn literal(value: &str) -> String {
+    format!("'{}'", value.replace('\'', "''"))
+}
+
 /// Convert the execution result of query to TimeSeries list of prometheus
 async fn transform_time_series(
     query_handle: QueryHandle,
-- 
2.43.0


From 3c348c4f9a0d489a2d3f948f29709f4af46b85ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:49 +0000
Subject: [PATCH 66/70] fix: a Prometheus read gives no label of a null tag, no
 sample of a null value, and every series by itself

---
 .../query/src/prom/time_series/writer.rs      | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/query_server/query/src/prom/time_series/writer.rs b/query_server/query/src/prom/time_series/writer.rs
index c59bb85..05cb668 100644
--- a/query_server/query/src/prom/time_series/writer.rs
+++ b/query_server/query/src/prom/time_series/writer.rs
@@ -1,6 +1,6 @@
 use std::collections::HashMap;
 
-use datafusion::arrow::array::{ArrayRef, PrimitiveArray, StringArray};
+use datafusion::arrow::array::{Array, ArrayRef, PrimitiveArray, StringArray};
 use datafusion::arrow::datatypes::{
     DataType, Float16Type, Float32Type, Float64Type, SchemaRef, TimeUnit, TimestampMicrosecondType,
     TimestampMillisecondType, TimestampNanosecondType, TimestampSecondType,
@@ -29,9 +29,18 @@ pub struct Writer<'a> {
 impl Writer<'_> {
     /// Convert a record to a metric
     fn apply(&mut self, batch: &[ArrayRef], row_index: usize) -> QueryResult<()> {
+        // no sample
+        if batch[self.sample_value_idx].is_null(row_index) {
+            return Ok(());
+        }
+
         let mut labels = Vec::with_capacity(self.tag_name_indices.len());
         for (tag_idx, tag_name) in self.tag_name_indices.iter().zip(&self.tag_names) {
             let col = &batch[*tag_idx];
+            // a label that is not there
+            if col.is_null(row_index) {
+                continue;
+            }
             let tag_value = match col.data_type() {
                 DataType::Utf8 => col
                     .as_any()
@@ -230,11 +239,10 @@ impl WriterBuilder {
 }
 
 fn concat_labels(labels: &[Label]) -> String {
+    // any character may be part of a label, so the lengths tell where each begins and ends
     labels
         .iter()
-        .flat_map(|e| [e.name[..].as_ref(), e.value[..].as_ref()])
-        .collect::<Vec<_>>()
-        // 0x01 cannot occur in valid UTF-8 sequences, so use it
-        // as a separator here.
-        .join("\x01")
+        .flat_map(|e| [e.name.as_str(), e.value.as_str()])
+        .map(|part| format!("{}:{}", part.len(), part))
+        .collect()
 }
-- 
2.43.0


From 2f8e32595c9d0b104758c42a897eec7e549847c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:49 +0000
Subject: [PATCH 67/70] fix: a Prometheus write with a label twice has it once

---
 query_server/query/src/prom/remote_server.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/query_server/query/src/prom/remote_server.rs b/query_server/query/src/prom/remote_server.rs
index 5f72b33..4ca3d07 100644
--- a/query_server/query/src/prom/remote_server.rs
+++ b/query_server/query/src/prom/remote_server.rs
@@ -100,13 +100,20 @@ impl PromRemoteServer for PromRemoteSqlServer {
                     Cow::Borrowed(METRIC_SAMPLE_COLUMN_NAME),
                     FieldValue::F64(sample.value),
                 )];
-                let timestamp = sample.timestamp * 1000000;
-                lines.push(Line::new(
-                    Cow::Borrowed(table_name),
-                    tags.clone(),
+                let timestamp = sample.timestamp.checked_mul(1000000).ok_or_else(|| {
+                    QueryError::InvalidRemoteWriteReq {
+                        source: format!("timestamp out of range: {}", sample.timestamp).into(),
+                    }
+                })?;
+                let mut line = Line {
+                    hash_id: 0,
+                    table: Cow::Borrowed(table_name),
+                    tags: tags.clone(),
                     fields,
                     timestamp,
-                ));
+                };
+                line.sort_dedup_and_hash();
+                lines.push(line);
             }
         }
 
-- 
2.43.0


From e1facafaba95420cb0353ae9affcf5e546a54a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:12 +0000
Subject: [PATCH 68/70] fix: a Prometheus query reads the metrics that all its
 matchers on the name accept

---
 query_server/query/src/prom/remote_server.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/query_server/query/src/prom/remote_server.rs b/query_server/query/src/prom/remote_server.rs
index 4ca3d07..8e78ee6 100644
--- a/query_server/query/src/prom/remote_server.rs
+++ b/query_server/query/src/prom/remote_server.rs
@@ -286,10 +286,12 @@ fn build_sql_with_table(
     } = query;
 
     let mut tables = Vec::new();
+    let mut is_named = false;
     let mut label_filters = Vec::with_capacity(matchers.len());
 
     for m in matchers {
         if METRIC_NAME_LABEL == m.name {
+            let accepted_before = std::mem::take(&mut tables);
             match m.r#type() {
                 Type::Eq => {
                     // Get schema of the specified table
@@ -334,6 +336,11 @@ fn build_sql_with_table(
                     return Err(QueryError::InvalidRemoteReadReq { source: "non-equal or regex-non-equal matchers are not supported on the metric name yet".to_string().into() });
                 }
             }
+            if is_named {
+                // Every matcher has to accept the name
+                tables.retain(|table| accepted_before.iter().any(|e| e.name == table.name));
+            }
+            is_named = true;
 
             continue;
         }
-- 
2.43.0


From 3bf2d3f4f4356d0cb180d0ad71016cd47ff433fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:22 +0000
Subject: [PATCH 69/70] fix: the series of a table are not those of a table
 whose name begins with its name and a dot

---
 tskv/src/index/engine2.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tskv/src/index/engine2.rs b/tskv/src/index/engine2.rs
index e86ea7f..7d7b9a7 100644
--- a/tskv/src/index/engine2.rs
+++ b/tskv/src/index/engine2.rs
@@ -266,6 +266,10 @@ impl IndexEngine2 {
                 .map_err(|e| IndexStorageSnafu { msg: e.to_string() }.build())?;
             for val in it {
                 let val = val.map_err(|e| IndexStorageSnafu { msg: e.to_string() }.build())?;
+                if !is_tag_and_value(&val.0[prefix.len()..]) {
+                    // a series of another table, whose name begins with `tab.`
+                    continue;
+                }
                 let rb = RoaringBitmap::deserialize_from(val.1).context(RoaringBitmapSnafu)?;
                 bitmap = bitmap.bitor(rb);
             }
@@ -289,6 +293,11 @@ impl IndexEngine2 {
     }
 }
 
+/// Whether it is `tag=val`, the tag being the id of a column, and not `table.tag=val`
+fn is_tag_and_value(key: &[u8]) -> bool {
+    key.iter().find(|b| matches!(b, b'.' | b'=')) == Some(&b'=')
+}
+
 fn convert_bound(bound: std::ops::Bound<&Vec<u8>>) -> std::ops::Bound<&[u8]> {
     match bound {
         std::ops::Bound::Included(val) => std::ops::Bound::Included(val.as_slice()),
-- 
2.43.0


From 12aabb4169d4e4a652851eeb8b989711a32e6a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:22 +0000
Subject: [PATCH 70/70] fix: series by several tags are those that have all of
 them

---
 tskv/src/index/cache.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/tskv/src/index/cache.rs b/tskv/src/index/cache.rs
index e4cd4dd..c60d87d 100644
--- a/tskv/src/index/cache.rs
+++ b/tskv/src/index/cache.rs
@@ -252,7 +252,7 @@ impl IndexMemCache {
             }
         }
 
-        let mut bitmap = roaring::RoaringBitmap::new();
+        let mut bitmap: Option<roaring::RoaringBitmap> = None;
         for tag in tags {
             let rb = self
                 .inverted
@@ -260,17 +260,16 @@ impl IndexMemCache {
                 .and_then(|item| item.get(&tag.key))
                 .and_then(|item| item.get(&tag.value));
             if let Some(rb) = rb {
-                if bitmap.is_empty() {
-                    bitmap = rb.clone();
-                } else {
-                    bitmap = bitmap.bitand(rb)
-                }
+                bitmap = Some(match bitmap {
+                    Some(bitmap) => bitmap.bitand(rb),
+                    None => rb.clone(),
+                });
             } else {
                 return roaring::RoaringBitmap::new();
             }
         }
 
-        bitmap
+        bitmap.unwrap_or_default()
     }
 
     pub async fn flush(&mut self, storage: &super::engine2::IndexEngine2) -> IndexResult<()> {
-- 
2.43.0

