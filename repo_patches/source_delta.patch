From 2ec3d6f7194fffc0a434fb38d50bb387a30be6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:10 +0000
Subject: [PATCH 01/17] fix: escape line feeds in label values and help as \n,
 not \\n

---
 src/label.rs  | 2 +-
 src/metric.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/label.rs b/src/label.rs
index 845f20f..2b9d668 100644
--- a/src/label.rs
+++ b/src/label.rs
@@ -100,7 +100,7 @@ impl fmt::Display for Label {
         for c in self.value.chars() {
             match c {
                 '\\' => write!(f, "\\\\")?,
-                '\n' => write!(f, "\\\\n")?,
+                '\n' => write!(f, "\\n")?,
                 '"' => write!(f, "\\\"")?,
                 _ => write!(f, "{}", c)?,
             }
diff --git a/src/metric.rs b/src/metric.rs
index de10628..ca21bf5 100644
--- a/src/metric.rs
+++ b/src/metric.rs
@@ -332,7 +332,7 @@ impl fmt::Display for MetricFamily {
             for c in help.chars() {
                 match c {
                     '\\' => write!(f, "\\\\")?,
-                    '\n' => write!(f, "\\\\n")?,
+                    '\n' => write!(f, "\\n")?,
                     _ => write!(f, "{}", c)?,
                 }
             }
-- 
2.43.0


From de556dcfb7a17184a6dd20e780a47e8381931157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:11 +0000
Subject: [PATCH 02/17] fix: escape labels of bucket and quantile samples like
 all other labels

---
 src/aggregated_metrics.rs | 4 ++--
 src/metrics/histogram.rs  | 2 +-
 src/metrics/summary.rs    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aggregated_metrics.rs b/src/aggregated_metrics.rs
index 2950497..43b7b9c 100644
--- a/src/aggregated_metrics.rs
+++ b/src/aggregated_metrics.rs
@@ -216,7 +216,7 @@ impl fmt::Display for AggregatedHistogram {
                 MetricValue(bucket.upper_bound())
             )?;
             for label in self.labels().iter() {
-                write!(f, ",{}={:?}", label.name(), label.value())?;
+                write!(f, ",{}", label)?;
             }
             writeln!(f, "}} {}{}", bucket.cumulative_count(), timestamp)?;
         }
@@ -347,7 +347,7 @@ impl fmt::Display for AggregatedSummary {
                 quantile.as_f64()
             )?;
             for label in self.labels().iter() {
-                write!(f, ",{}={:?}", label.name(), label.value())?;
+                write!(f, ",{}", label)?;
             }
             writeln!(f, "}} {}{}", MetricValue(value), timestamp)?;
         }
diff --git a/src/metrics/histogram.rs b/src/metrics/histogram.rs
index 92e6732..10933de 100644
--- a/src/metrics/histogram.rs
+++ b/src/metrics/histogram.rs
@@ -131,7 +131,7 @@ impl fmt::Display for Histogram {
                 MetricValue(bucket.upper_bound())
             )?;
             for label in self.labels().iter() {
-                write!(f, ",{}={:?}", label.name(), label.value())?;
+                write!(f, ",{}", label)?;
             }
             writeln!(f, "}} {}{}", bucket.cumulative_count(), timestamp)?;
         }
diff --git a/src/metrics/summary.rs b/src/metrics/summary.rs
index 942142e..ff89fa4 100644
--- a/src/metrics/summary.rs
+++ b/src/metrics/summary.rs
@@ -169,7 +169,7 @@ impl fmt::Display for Summary {
                 quantile.as_f64()
             )?;
             for label in self.labels().iter() {
-                write!(f, ",{}={:?}", label.name(), label.value())?;
+                write!(f, ",{}", label)?;
             }
             writeln!(f, "}} {}{}", MetricValue(value), timestamp)?;
         }
-- 
2.43.0


From 0f003b25ff63921c25dc4bcf6fd1f80619bc0f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 03/17] fix: spell not-a-number as NaN in the text format

---
 src/metric.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metric.rs b/src/metric.rs
index ca21bf5..e445f96 100644
--- a/src/metric.rs
+++ b/src/metric.rs
@@ -180,7 +180,7 @@ impl fmt::Display for MetricValue {
         if self.0.is_finite() {
             write!(f, "{}", self.0)
         } else if self.0.is_nan() {
-            write!(f, "Nan")
+            write!(f, "NaN")
         } else if self.0.is_sign_positive() {
             write!(f, "+Inf")
         } else {
-- 
2.43.0


From 1903e979af8b9b80285ab7b1cc5d1826f2fac714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 04/17] fix: do not index past the last sample for quantile 1.0

---
 src/aggregated_metrics.rs | 2 +-
 src/metrics/summary.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aggregated_metrics.rs b/src/aggregated_metrics.rs
index 43b7b9c..a7aae44 100644
--- a/src/aggregated_metrics.rs
+++ b/src/aggregated_metrics.rs
@@ -303,7 +303,7 @@ impl AggregatedSummary {
         quantiles
             .iter()
             .map(|&quantile| {
-                let index = cmp::min(count, (quantile.as_f64() * count as f64).floor() as usize);
+                let index = cmp::min(count - 1, (quantile.as_f64() * count as f64).floor() as usize);
                 (quantile, aggregated_samples[index])
             })
             .collect()
diff --git a/src/metrics/summary.rs b/src/metrics/summary.rs
index ff89fa4..dce8c55 100644
--- a/src/metrics/summary.rs
+++ b/src/metrics/summary.rs
@@ -90,7 +90,7 @@ impl Summary {
             .quantiles
             .iter()
             .map(|&quantile| {
-                let index = cmp::min(count, (quantile.as_f64() * count as f64).floor() as usize);
+                let index = cmp::min(count - 1, (quantile.as_f64() * count as f64).floor() as usize);
                 (quantile, samples[index])
             })
             .collect()
-- 
2.43.0


From 868963d0b697432e11831d3323a3df1e2f0fba80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:25 +0000
Subject: [PATCH 05/17] fix: keep one bucket per distinct upper bound

---
 src/metrics/histogram.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/metrics/histogram.rs b/src/metrics/histogram.rs
index 10933de..cd8949f 100644
--- a/src/metrics/histogram.rs
+++ b/src/metrics/histogram.rs
@@ -282,6 +282,7 @@ impl HistogramBuilder {
                 .partial_cmp(&b.upper_bound())
                 .expect("Never fails")
         });
+        buckets.dedup_by(|a, b| a.upper_bound() == b.upper_bound());
         let inner = Inner {
             bucket_name,
             labels: Labels::new(labels),
-- 
2.43.0


From dd97155109cfe9810ddaa807ca2c7e0121fa7f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:26 +0000
Subject: [PATCH 06/17] fix: report a quantile configured twice only once

---
 src/metrics/summary.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/metrics/summary.rs b/src/metrics/summary.rs
index dce8c55..e0140d2 100644
--- a/src/metrics/summary.rs
+++ b/src/metrics/summary.rs
@@ -293,6 +293,7 @@ impl SummaryBuilder {
             .map(|quantile| track!(Quantile::new(*quantile)))
             .collect::<Result<Vec<_>>>())?;
         quantiles.sort_by(|a, b| a.as_f64().partial_cmp(&b.as_f64()).expect("Never fails"));
+        quantiles.dedup();
         let inner = Inner {
             quantile_name,
             labels: Labels::new(labels),
-- 
2.43.0


From 62e2a22112ee39b2cb15ac80a1428dd9fce7c25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:27 +0000
Subject: [PATCH 07/17] fix: merge only buckets with the same upper bound

---
 src/bucket.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bucket.rs b/src/bucket.rs
index e55fa0d..6508594 100644
--- a/src/bucket.rs
+++ b/src/bucket.rs
@@ -133,7 +133,7 @@ impl<'a> Iterator for AggregatedCumulativeBuckets<'a> {
 
         for buckets in &mut self.iters {
             let upper_bound = buckets.peek().expect("Never fails").upper_bound();
-            if min.is_infinite() || (upper_bound - min).abs() < std::f64::EPSILON {
+            if upper_bound == min {
                 let bucket = buckets.next().expect("Never fails");
                 self.cumulative_count += bucket.count();
             }
-- 
2.43.0


From 751aef21cc1803c5ec941539937a492a2271480f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:28 +0000
Subject: [PATCH 08/17] fix: make exponential buckets start * factor^i

---
 src/metrics/histogram.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metrics/histogram.rs b/src/metrics/histogram.rs
index cd8949f..bedf294 100644
--- a/src/metrics/histogram.rs
+++ b/src/metrics/histogram.rs
@@ -192,7 +192,7 @@ impl HistogramBuilder {
     /// Makes a builder with the specified exponential buckets.
     pub fn with_exponential_buckets(name: &str, start: f64, factor: f64, count: usize) -> Self {
         let mut this = Self::new(name);
-        for x in (0..count).map(|i| start + factor.powi(i as i32)) {
+        for x in (0..count).map(|i| start * factor.powi(i as i32)) {
             this.bucket(x);
         }
         this
-- 
2.43.0


From 546e6d8318b97496d621427da92c05448097f92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 09/17] fix: end in-progress tracking also when the tracked
 code panics

---
 src/metrics/gauge.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/metrics/gauge.rs b/src/metrics/gauge.rs
index 291f5cf..412f7f3 100644
--- a/src/metrics/gauge.rs
+++ b/src/metrics/gauge.rs
@@ -116,10 +116,16 @@ impl Gauge {
     where
         F: FnOnce() -> T,
     {
+        struct InProgress<'a>(&'a Gauge);
+        impl<'a> Drop for InProgress<'a> {
+            fn drop(&mut self) {
+                self.0.decrement();
+            }
+        }
+
         self.increment();
-        let result = f();
-        self.decrement();
-        result
+        let _in_progress = InProgress(self);
+        f()
     }
 
     /// Measures the exeuction time of `f` and sets this gauge to its duration in seconds.
-- 
2.43.0


From 278d90f76e2cc859d4fb6d5ca1db35c9fd4e2ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:49 +0000
Subject: [PATCH 10/17] fix: keep counters from wrapping around beyond the u64
 range

---
 src/atomic.rs          | 12 ++++++++++++
 src/metrics/counter.rs | 11 +++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/atomic.rs b/src/atomic.rs
index d6a08f3..15265d7 100644
--- a/src/atomic.rs
+++ b/src/atomic.rs
@@ -23,6 +23,18 @@ impl AtomicU64 {
         self.0.fetch_add(v, Relaxed);
     }
 
+    /// Adds `v` unless the sum overflows, returns `true` if it was added
+    pub fn checked_add(&self, v: u64) -> bool {
+        let mut old = self.0.load(Relaxed);
+        while let Some(new) = old.checked_add(v) {
+            match self.0.compare_exchange_weak(old, new, Relaxed, Relaxed) {
+                Ok(_) => return true,
+                Err(v) => old = v, // try again
+            }
+        }
+        false
+    }
+
     pub fn update<F>(&self, f: F)
     where
         F: Fn(u64) -> u64,
diff --git a/src/metrics/counter.rs b/src/metrics/counter.rs
index efaa2a4..d1409ed 100644
--- a/src/metrics/counter.rs
+++ b/src/metrics/counter.rs
@@ -1,3 +1,4 @@
+use std;
 use std::fmt;
 use std::iter;
 use std::sync::{Arc, Weak};
@@ -258,15 +259,15 @@ impl Value {
 
     #[inline]
     fn increment(&self) {
-        self.u64.inc();
+        self.add_u64(1);
     }
 
     #[inline]
     fn add(&self, count: f64) {
         let floor = count.floor() as u64;
         let ceil = count.ceil() as u64;
-        if floor == ceil {
-            self.u64.add(floor);
+        if floor == ceil && count < std::u64::MAX as f64 {
+            self.add_u64(floor);
         } else {
             self.f64.add(count);
         }
@@ -274,7 +275,9 @@ impl Value {
 
     #[inline]
     fn add_u64(&self, count: u64) {
-        self.u64.add(count);
+        if !self.u64.checked_add(count) {
+            self.f64.add(count as f64);
+        }
     }
 }
 
-- 
2.43.0


From 2102fa6d4bde30b626625e1d5326bf27cba210bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:51 +0000
Subject: [PATCH 11/17] fix: identify metrics by their full name, not by its
 split into parts

---
 src/metric.rs | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/metric.rs b/src/metric.rs
index e445f96..21fa6a6 100644
--- a/src/metric.rs
+++ b/src/metric.rs
@@ -1,6 +1,9 @@
 //! Metric.
 use std;
+use std::cmp;
 use std::fmt;
+use std::hash::{Hash, Hasher};
+use std::iter;
 
 pub use aggregated_metrics::{
     AggregatedCounter, AggregatedGauge, AggregatedHistogram, AggregatedSummary,
@@ -84,7 +87,8 @@ impl From<Summary> for Metric {
 ///
 /// - [Metric name and labels](https://prometheus.io/docs/concepts/data_model/#metric-names-and-labels)
 /// - [Metric names](https://prometheus.io/docs/instrumenting/writing_clientlibs/#metric-names)
-#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
+/// Names are compared by the whole sequence of characters, regardless of how it is split into the parts.
+#[derive(Debug, Clone)]
 pub struct MetricName {
     namespace: Option<String>,
     subsystem: Option<String>,
@@ -106,6 +110,15 @@ impl MetricName {
         &self.name
     }
 
+    fn bytes<'a>(&'a self) -> impl Iterator<Item = u8> + 'a {
+        fn prefix<'a>(part: &'a Option<String>) -> impl Iterator<Item = u8> + 'a {
+            part.iter().flat_map(|s| s.bytes().chain(iter::once(b'_')))
+        }
+        prefix(&self.namespace)
+            .chain(prefix(&self.subsystem))
+            .chain(self.name.bytes())
+    }
+
     pub(crate) fn new(
         namespace: Option<&str>,
         subsystem: Option<&str>,
@@ -141,6 +154,30 @@ impl MetricName {
         Ok(())
     }
 }
+impl PartialEq for MetricName {
+    fn eq(&self, other: &Self) -> bool {
+        self.bytes().eq(other.bytes())
+    }
+}
+impl Eq for MetricName {}
+impl PartialOrd for MetricName {
+    fn partial_cmp(&self, other: &Self) -> Option<cmp::Ordering> {
+        Some(self.cmp(other))
+    }
+}
+impl Ord for MetricName {
+    fn cmp(&self, other: &Self) -> cmp::Ordering {
+        self.bytes().cmp(other.bytes())
+    }
+}
+impl Hash for MetricName {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        for b in self.bytes() {
+            state.write_u8(b);
+        }
+        state.write_u8(0xff);
+    }
+}
 impl fmt::Display for MetricName {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         if let Some(ref s) = self.namespace {
-- 
2.43.0


From af0c29f7877c39ca6169f465aef109413c0b40b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:10 +0000
Subject: [PATCH 12/17] fix: render a histogram's count from the same reading
 as its buckets

---
 src/aggregated_metrics.rs | 6 ++++--
 src/metrics/histogram.rs  | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/aggregated_metrics.rs b/src/aggregated_metrics.rs
index a7aae44..c398c4b 100644
--- a/src/aggregated_metrics.rs
+++ b/src/aggregated_metrics.rs
@@ -208,7 +208,9 @@ impl fmt::Display for AggregatedHistogram {
             "".to_string()
         };
 
+        let mut count = 0;
         for bucket in self.cumulative_buckets() {
+            count = bucket.cumulative_count();
             write!(
                 f,
                 "{}_bucket{{le=\"{}\"",
@@ -218,7 +220,7 @@ impl fmt::Display for AggregatedHistogram {
             for label in self.labels().iter() {
                 write!(f, ",{}", label)?;
             }
-            writeln!(f, "}} {}{}", bucket.cumulative_count(), timestamp)?;
+            writeln!(f, "}} {}{}", count, timestamp)?;
         }
         writeln!(
             f,
@@ -233,7 +235,7 @@ impl fmt::Display for AggregatedHistogram {
             "{}_count{} {}{}",
             self.metric_name(),
             labels,
-            self.count(),
+            count,
             timestamp
         )?;
         Ok(())
diff --git a/src/metrics/histogram.rs b/src/metrics/histogram.rs
index bedf294..bac74ed 100644
--- a/src/metrics/histogram.rs
+++ b/src/metrics/histogram.rs
@@ -123,7 +123,9 @@ impl fmt::Display for Histogram {
             "".to_string()
         };
 
+        let mut count = 0;
         for bucket in self.cumulative_buckets() {
+            count = bucket.cumulative_count();
             write!(
                 f,
                 "{}_bucket{{le=\"{}\"",
@@ -133,7 +135,7 @@ impl fmt::Display for Histogram {
             for label in self.labels().iter() {
                 write!(f, ",{}", label)?;
             }
-            writeln!(f, "}} {}{}", bucket.cumulative_count(), timestamp)?;
+            writeln!(f, "}} {}{}", count, timestamp)?;
         }
         writeln!(
             f,
@@ -148,7 +150,7 @@ impl fmt::Display for Histogram {
             "{}_count{} {}{}",
             self.metric_name(),
             labels,
-            self.count(),
+            count,
             timestamp
         )?;
         Ok(())
-- 
2.43.0


From 2812103b5767a2fe798677f740c85b19933c2696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:12 +0000
Subject: [PATCH 13/17] fix: do not panic when labels change while metrics are
 being sorted

---
 src/registry.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/registry.rs b/src/registry.rs
index 73b62eb..d394cc7 100644
--- a/src/registry.rs
+++ b/src/registry.rs
@@ -1,4 +1,3 @@
-use std::cmp;
 use std::fmt;
 use std::sync::mpsc;
 use std::sync::Mutex;
@@ -104,13 +103,10 @@ impl Gatherer {
                 self.collectors.swap_remove(i);
             }
         }
-        metrics.sort_by(|a, b| {
-            let result = (a.name(), a.kind()).cmp(&(b.name(), b.kind()));
-            if result == cmp::Ordering::Equal {
-                a.labels().iter().cmp(b.labels().iter())
-            } else {
-                result
-            }
+        // The labels may be updated by other threads while sorting, so each key is taken only once.
+        metrics.sort_by_cached_key(|m| {
+            let labels = m.labels().iter().cloned().collect::<Vec<_>>();
+            (m.name().clone(), m.kind(), labels)
         });
 
         let mut families: Vec<MetricFamily> = Vec::new();
-- 
2.43.0


From 3b2d6aecbcef28588b9c830a74f829fd0f1e9c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:13 +0000
Subject: [PATCH 14/17] fix: report the number of open file descriptors

---
 src/metrics/process.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/metrics/process.rs b/src/metrics/process.rs
index 9ae6d87..e783da0 100644
--- a/src/metrics/process.rs
+++ b/src/metrics/process.rs
@@ -2,6 +2,8 @@
 use libc;
 #[cfg(target_os = "linux")]
 use procinfo;
+#[cfg(target_os = "linux")]
+use std::fs;
 use std::time::SystemTime;
 #[cfg(target_os = "linux")]
 use std::time::UNIX_EPOCH;
@@ -68,8 +70,9 @@ impl Collect for ProcessMetricsCollector {
                 metrics.push(gauge("max_fds", fds as f64));
             }
         }
-        if let Ok(status) = procinfo::pid::status_self() {
-            metrics.push(gauge("open_fds", f64::from(status.fd_allocated)));
+        if let Ok(fds) = fs::read_dir("/proc/self/fd") {
+            // Excludes the descriptor opened by `read_dir` itself
+            metrics.push(gauge("open_fds", fds.count().saturating_sub(1) as f64));
         }
         if let Ok(stat) = procinfo::pid::stat_self() {
             metrics.push(counter(
-- 
2.43.0


From 473ef857eb74f4bf6e27e621f02369e027b3f7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:38 +0000
Subject: [PATCH 15/17] fix: expire summary samples by elapsed time, not by the
 wall clock

An adjustment of the wall clock made summaries drop samples that were still
in the window (clock set forward) or keep old ones (clock set back).
---
 src/metrics/summary.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/metrics/summary.rs b/src/metrics/summary.rs
index e0140d2..1c53694 100644
--- a/src/metrics/summary.rs
+++ b/src/metrics/summary.rs
@@ -3,7 +3,7 @@ use std::collections::VecDeque;
 use std::fmt;
 use std::iter;
 use std::sync::{Arc, Mutex, Weak};
-use std::time::{Duration, Instant, SystemTime};
+use std::time::{Duration, Instant};
 
 use atomic::{AtomicF64, AtomicU64};
 use default_registry;
@@ -130,13 +130,13 @@ impl Summary {
 
     pub(crate) fn with_current_samples<F, T>(&self, f: F) -> T
     where
-        F: FnOnce(SystemTime, &mut VecDeque<(SystemTime, f64)>) -> T,
+        F: FnOnce(Instant, &mut VecDeque<(Instant, f64)>) -> T,
     {
-        let now = SystemTime::now();
+        let now = Instant::now();
         if let Ok(mut samples) = self.0.samples.lock() {
             while samples
                 .front()
-                .and_then(|s| now.duration_since(s.0).ok())
+                .and_then(|s| now.checked_duration_since(s.0))
                 .and_then(|d| if d > self.0.window { Some(()) } else { None })
                 .is_some()
             {
@@ -333,7 +333,7 @@ struct Inner {
     timestamp: Timestamp,
     window: Duration,
     quantiles: Vec<Quantile>,
-    samples: Mutex<VecDeque<(SystemTime, f64)>>,
+    samples: Mutex<VecDeque<(Instant, f64)>>,
     count: AtomicU64,
     sum: AtomicF64,
 }
-- 
2.43.0


From 32c30674870ccb33f39c8720f4fb08d06be31826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:59 +0000
Subject: [PATCH 16/17] fix: concurrent label updates through clones could be
 lost (ABA in AtomicImmut::update)

---
 src/label.rs | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/label.rs b/src/label.rs
index 2b9d668..68e04ea 100644
--- a/src/label.rs
+++ b/src/label.rs
@@ -8,6 +8,7 @@ use atomic_immut::AtomicImmut;
 use std;
 use std::fmt;
 use std::ops::Deref;
+use std::sync::{Mutex, PoisonError};
 
 use {ErrorKind, Result};
 
@@ -111,11 +112,18 @@ impl fmt::Display for Label {
 
 /// A map of labels (i.e., key-value pairs).
 #[derive(Debug)]
-pub struct Labels(AtomicImmut<Vec<Label>>);
+pub struct Labels {
+    current: AtomicImmut<Vec<Label>>,
+
+    // Held while `current` is replaced. `AtomicImmut::update` compares addresses,
+    // and would take a later version of the labels for the one it started from
+    // if that has been allocated at the same address.
+    update_lock: Mutex<()>,
+}
 impl Labels {
     /// Returns the number of labels contained in this map.
     pub fn len(&self) -> usize {
-        self.0.load().len()
+        self.current.load().len()
     }
 
     /// Returns `true` if this map has no labels, otherwise `false`.
@@ -130,13 +138,27 @@ impl Labels {
 
     /// Returns an iterator which visiting all labels in this map.
     pub fn iter(&self) -> Iter {
-        let labels = self.0.load();
+        let labels = self.current.load();
         let inner = unsafe { std::mem::transmute(labels.iter()) };
         Iter { labels, inner }
     }
 
     pub(crate) fn new(labels: Vec<Label>) -> Self {
-        Labels(AtomicImmut::new(labels))
+        Labels {
+            current: AtomicImmut::new(labels),
+            update_lock: Mutex::new(()),
+        }
+    }
+
+    fn update<F>(&self, f: F)
+    where
+        F: Fn(&Vec<Label>) -> Vec<Label>,
+    {
+        let _guard = self
+            .update_lock
+            .lock()
+            .unwrap_or_else(PoisonError::into_inner);
+        self.current.update(f);
     }
 }
 impl fmt::Display for Labels {
@@ -168,7 +190,7 @@ impl<'a> LabelsMut<'a> {
             ErrorKind::InvalidInput
         );
         let label = track!(Label::new(name, value))?;
-        self.inner.0.update(move |labels| {
+        self.inner.update(move |labels| {
             let mut labels = labels.clone();
             labels.retain(|l| l.name != label.name);
             labels.push(label.clone());
@@ -181,13 +203,12 @@ impl<'a> LabelsMut<'a> {
     /// Removes the label which has the name `name` if it exists.
     pub fn remove(&mut self, name: &str) {
         self.inner
-            .0
             .update(|labels| labels.iter().filter(|l| l.name != name).cloned().collect());
     }
 
     /// Clears the all labels.
     pub fn clear(&mut self) {
-        self.inner.0.store(Vec::new());
+        self.inner.update(|_| Vec::new());
     }
 
     pub(crate) fn new(labels: &'a Labels, reserved: Option<&'static str>) -> Self {
-- 
2.43.0


From 75160dbc2f1f2890344a91991a5adb20f92cfd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:04 +0000
Subject: [PATCH 17/17] fix: default_registry() deadlocked inside a gather of
 the default gatherer, and gave a dead registry after a panic

---
 src/registry.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/registry.rs b/src/registry.rs
index d394cc7..2e02602 100644
--- a/src/registry.rs
+++ b/src/registry.rs
@@ -1,27 +1,34 @@
 use std::fmt;
 use std::sync::mpsc;
-use std::sync::Mutex;
+use std::sync::{Mutex, PoisonError, TryLockError};
 
 use metric::{Metric, MetricFamilies, MetricFamily};
 use Collect;
 
 lazy_static! {
-    static ref DEFAULT_GATHERER: Mutex<Gatherer> = Mutex::new(Gatherer::new());
+    // The second element is the registry of the first one when it was last seen unlocked.
+    static ref DEFAULT: (Mutex<Gatherer>, Mutex<Registry>) = {
+        let gatherer = Gatherer::new();
+        let registry = gatherer.registry();
+        (Mutex::new(gatherer), Mutex::new(registry))
+    };
 }
 
 /// Returns the global default `Gatherer`.
 pub fn default_gatherer() -> &'static Mutex<Gatherer> {
-    &DEFAULT_GATHERER
+    &DEFAULT.0
 }
 
 /// Returns the global default `Registry`.
 pub fn default_registry() -> Registry {
-    if let Ok(gatherer) = default_gatherer().lock() {
-        gatherer.registry()
-    } else {
-        let (tx, _) = mpsc::channel();
-        Registry { tx }
+    let mut registry = DEFAULT.1.lock().unwrap_or_else(PoisonError::into_inner);
+    match DEFAULT.0.try_lock() {
+        Ok(gatherer) => *registry = gatherer.registry(),
+        Err(TryLockError::Poisoned(e)) => *registry = e.into_inner().registry(),
+        // Waiting would be a deadlock if this is called by a collector of the default gatherer.
+        Err(TryLockError::WouldBlock) => {}
     }
+    registry.clone()
 }
 
 /// Collector registry.
-- 
2.43.0

