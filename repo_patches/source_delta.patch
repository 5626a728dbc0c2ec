From 08aa4b1da93d5b2c3048571bd2b56a502d5ff103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 01/11] fix: escape line feeds in label values and help text as
 \n

They were written as two backslashes and an n, which decodes to a
backslash followed by an n.
---
 src/label.rs  | 2 +-
 src/metric.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/label.rs b/src/label.rs
index 845f20f..2b9d668 100644
--- a/src/label.rs
+++ b/src/label.rs
@@ -100,7 +100,7 @@ impl fmt::Display for Label {
         for c in self.value.chars() {
             match c {
                 '\\' => write!(f, "\\\\")?,
-                '\n' => write!(f, "\\\\n")?,
+                '\n' => write!(f, "\\n")?,
                 '"' => write!(f, "\\\"")?,
                 _ => write!(f, "{}", c)?,
             }
diff --git a/src/metric.rs b/src/metric.rs
index de10628..ca21bf5 100644
--- a/src/metric.rs
+++ b/src/metric.rs
@@ -332,7 +332,7 @@ impl fmt::Display for MetricFamily {
             for c in help.chars() {
                 match c {
                     '\\' => write!(f, "\\\\")?,
-                    '\n' => write!(f, "\\\\n")?,
+                    '\n' => write!(f, "\\n")?,
                     _ => write!(f, "{}", c)?,
                 }
             }
-- 
2.43.0


From 1ebda937282e89b5208b49f3b7b630d5b4464e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 02/11] fix: escape labels of histogram buckets and summary
 quantiles like all others

These lines used Rust's debug escaping, which writes tabs and invisible
characters in a form Prometheus does not decode.
---
 src/aggregated_metrics.rs | 4 ++--
 src/metrics/histogram.rs  | 2 +-
 src/metrics/summary.rs    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aggregated_metrics.rs b/src/aggregated_metrics.rs
index 2950497..43b7b9c 100644
--- a/src/aggregated_metrics.rs
+++ b/src/aggregated_metrics.rs
@@ -216,7 +216,7 @@ impl fmt::Display for AggregatedHistogram {
                 MetricValue(bucket.upper_bound())
             )?;
             for label in self.labels().iter() {
-                write!(f, ",{}={:?}", label.name(), label.value())?;
+                write!(f, ",{}", label)?;
             }
             writeln!(f, "}} {}{}", bucket.cumulative_count(), timestamp)?;
         }
@@ -347,7 +347,7 @@ impl fmt::Display for AggregatedSummary {
                 quantile.as_f64()
             )?;
             for label in self.labels().iter() {
-                write!(f, ",{}={:?}", label.name(), label.value())?;
+                write!(f, ",{}", label)?;
             }
             writeln!(f, "}} {}{}", MetricValue(value), timestamp)?;
         }
diff --git a/src/metrics/histogram.rs b/src/metrics/histogram.rs
index 92e6732..10933de 100644
--- a/src/metrics/histogram.rs
+++ b/src/metrics/histogram.rs
@@ -131,7 +131,7 @@ impl fmt::Display for Histogram {
                 MetricValue(bucket.upper_bound())
             )?;
             for label in self.labels().iter() {
-                write!(f, ",{}={:?}", label.name(), label.value())?;
+                write!(f, ",{}", label)?;
             }
             writeln!(f, "}} {}{}", bucket.cumulative_count(), timestamp)?;
         }
diff --git a/src/metrics/summary.rs b/src/metrics/summary.rs
index 942142e..ff89fa4 100644
--- a/src/metrics/summary.rs
+++ b/src/metrics/summary.rs
@@ -169,7 +169,7 @@ impl fmt::Display for Summary {
                 quantile.as_f64()
             )?;
             for label in self.labels().iter() {
-                write!(f, ",{}={:?}", label.name(), label.value())?;
+                write!(f, ",{}", label)?;
             }
             writeln!(f, "}} {}{}", MetricValue(value), timestamp)?;
         }
-- 
2.43.0


From 9c4f86668f57c843a22211375f094a2c2535b9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 03/11] fix: do not index past the samples for the quantile 1.0

---
 src/aggregated_metrics.rs | 2 +-
 src/metrics/summary.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aggregated_metrics.rs b/src/aggregated_metrics.rs
index 43b7b9c..a7aae44 100644
--- a/src/aggregated_metrics.rs
+++ b/src/aggregated_metrics.rs
@@ -303,7 +303,7 @@ impl AggregatedSummary {
         quantiles
             .iter()
             .map(|&quantile| {
-                let index = cmp::min(count, (quantile.as_f64() * count as f64).floor() as usize);
+                let index = cmp::min(count - 1, (quantile.as_f64() * count as f64).floor() as usize);
                 (quantile, aggregated_samples[index])
             })
             .collect()
diff --git a/src/metrics/summary.rs b/src/metrics/summary.rs
index ff89fa4..dce8c55 100644
--- a/src/metrics/summary.rs
+++ b/src/metrics/summary.rs
@@ -90,7 +90,7 @@ impl Summary {
             .quantiles
             .iter()
             .map(|&quantile| {
-                let index = cmp::min(count, (quantile.as_f64() * count as f64).floor() as usize);
+                let index = cmp::min(count - 1, (quantile.as_f64() * count as f64).floor() as usize);
                 (quantile, samples[index])
             })
             .collect()
-- 
2.43.0


From 7c3e9c251e80ddbd7fa5cfbcbd45ee43a19994d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 04/11] fix: keep one bucket per upper bound in a histogram

Observations were counted in one of the duplicates only, so that the
others exposed a wrong cumulative count under the same le label.
---
 src/metrics/histogram.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/metrics/histogram.rs b/src/metrics/histogram.rs
index 10933de..cd8949f 100644
--- a/src/metrics/histogram.rs
+++ b/src/metrics/histogram.rs
@@ -282,6 +282,7 @@ impl HistogramBuilder {
                 .partial_cmp(&b.upper_bound())
                 .expect("Never fails")
         });
+        buckets.dedup_by(|a, b| a.upper_bound() == b.upper_bound());
         let inner = Inner {
             bucket_name,
             labels: Labels::new(labels),
-- 
2.43.0


From e3654ddc8cf44f24abded605b67ceae25a4cd1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 05/11] fix: merge only buckets with the same upper bound when
 aggregating histograms

Bounds closer than the machine epsilon, and all bounds when one member has a
bucket for -Inf, were merged into one.
---
 src/bucket.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bucket.rs b/src/bucket.rs
index e55fa0d..6508594 100644
--- a/src/bucket.rs
+++ b/src/bucket.rs
@@ -133,7 +133,7 @@ impl<'a> Iterator for AggregatedCumulativeBuckets<'a> {
 
         for buckets in &mut self.iters {
             let upper_bound = buckets.peek().expect("Never fails").upper_bound();
-            if min.is_infinite() || (upper_bound - min).abs() < std::f64::EPSILON {
+            if upper_bound == min {
                 let bucket = buckets.next().expect("Never fails");
                 self.cumulative_count += bucket.count();
             }
-- 
2.43.0


From f2aedbebc5b2fd4fc4c612517f60e3f1a0291ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 06/11] fix: add large and infinite amounts to a counter
 without saturating or wrapping

Amounts of 2^64 and above were turned into u64::MAX, which also made the
next additions wrap around.
---
 src/metrics/counter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/metrics/counter.rs b/src/metrics/counter.rs
index efaa2a4..d4929b9 100644
--- a/src/metrics/counter.rs
+++ b/src/metrics/counter.rs
@@ -10,6 +10,9 @@ use metric::{Metric, MetricName, MetricValue};
 use timestamp::{self, Timestamp, TimestampMut};
 use {Collect, ErrorKind, Registry, Result};
 
+/// The amounts below this are exactly representable both as `f64` and as `u64` (2^53).
+const MAX_INTEGRAL_COUNT: f64 = 9_007_199_254_740_992.0;
+
 /// `Counter` is a cumulative metric that represents a single numerical value that only ever goes up.
 ///
 /// Cloned counters share the same value.
@@ -265,7 +268,8 @@ impl Value {
     fn add(&self, count: f64) {
         let floor = count.floor() as u64;
         let ceil = count.ceil() as u64;
-        if floor == ceil {
+        // Larger amounts may not fit in (or overflow) the integer part
+        if floor == ceil && count < MAX_INTEGRAL_COUNT {
             self.u64.add(floor);
         } else {
             self.f64.add(count);
-- 
2.43.0


From 75e55bf9c7b4d174010c379150c2b3432c6dadcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 07/11] fix: exponential buckets start at `start` and grow by
 `factor`

The power of the factor was added to the start instead of multiplied.
---
 src/metrics/histogram.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metrics/histogram.rs b/src/metrics/histogram.rs
index cd8949f..bedf294 100644
--- a/src/metrics/histogram.rs
+++ b/src/metrics/histogram.rs
@@ -192,7 +192,7 @@ impl HistogramBuilder {
     /// Makes a builder with the specified exponential buckets.
     pub fn with_exponential_buckets(name: &str, start: f64, factor: f64, count: usize) -> Self {
         let mut this = Self::new(name);
-        for x in (0..count).map(|i| start + factor.powi(i as i32)) {
+        for x in (0..count).map(|i| start * factor.powi(i as i32)) {
             this.bucket(x);
         }
         this
-- 
2.43.0


From f9aa5c4a7d88624332c1b9ad77e993995844ee44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 08/11] fix: spell not-a-number as NaN in the text format

---
 src/metric.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metric.rs b/src/metric.rs
index ca21bf5..e445f96 100644
--- a/src/metric.rs
+++ b/src/metric.rs
@@ -180,7 +180,7 @@ impl fmt::Display for MetricValue {
         if self.0.is_finite() {
             write!(f, "{}", self.0)
         } else if self.0.is_nan() {
-            write!(f, "Nan")
+            write!(f, "NaN")
         } else if self.0.is_sign_positive() {
             write!(f, "+Inf")
         } else {
-- 
2.43.0


From e343d74c3745b49b9b40f9e76b9c9c7e5b09a514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:36 +0000
Subject: [PATCH 09/11] fix: report the descriptors that are open, not the
 slots allocated for them

process_open_fds was taken from FDSize of /proc/self/status, which is the size
of the descriptor table (a multiple of 64) and not the number of descriptors in
use; where the status could not be parsed the metric was missing altogether.
---
 src/metrics/process.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/metrics/process.rs b/src/metrics/process.rs
index 9ae6d87..7114d83 100644
--- a/src/metrics/process.rs
+++ b/src/metrics/process.rs
@@ -2,6 +2,8 @@
 use libc;
 #[cfg(target_os = "linux")]
 use procinfo;
+#[cfg(target_os = "linux")]
+use std::fs;
 use std::time::SystemTime;
 #[cfg(target_os = "linux")]
 use std::time::UNIX_EPOCH;
@@ -68,8 +70,8 @@ impl Collect for ProcessMetricsCollector {
                 metrics.push(gauge("max_fds", fds as f64));
             }
         }
-        if let Ok(status) = procinfo::pid::status_self() {
-            metrics.push(gauge("open_fds", f64::from(status.fd_allocated)));
+        if let Some(fds) = open_fds() {
+            metrics.push(gauge("open_fds", fds as f64));
         }
         if let Ok(stat) = procinfo::pid::stat_self() {
             metrics.push(counter(
@@ -95,6 +97,14 @@ impl Collect for ProcessMetricsCollector {
     }
 }
 
+/// The number of the descriptors the process has open.
+#[cfg(target_os = "linux")]
+fn open_fds() -> Option<usize> {
+    // One of the entries is the descriptor through which the directory is being read.
+    let entries = fs::read_dir("/proc/self/fd").ok()?;
+    Some(entries.count().saturating_sub(1))
+}
+
 #[cfg(target_os = "linux")]
 fn counter(name: &str, value: f64) -> Metric {
     let counter = CounterBuilder::new(name)
-- 
2.43.0


From 97c376cd56e417b0ccae0cb1e077cd5d14b25f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:50 +0000
Subject: [PATCH 10/11] fix: report when the process started, not when its
 collector was made

process_start_time_seconds was the time at which the collector had been
created, which may be long after the start of the process.
---
 src/metrics/process.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/metrics/process.rs b/src/metrics/process.rs
index 7114d83..348d3b7 100644
--- a/src/metrics/process.rs
+++ b/src/metrics/process.rs
@@ -4,9 +4,6 @@ use libc;
 use procinfo;
 #[cfg(target_os = "linux")]
 use std::fs;
-use std::time::SystemTime;
-#[cfg(target_os = "linux")]
-use std::time::UNIX_EPOCH;
 use std::vec;
 
 use metric::Metric;
@@ -44,14 +41,12 @@ lazy_static! {
 /// ```
 #[derive(Debug)]
 pub struct ProcessMetricsCollector {
-    start_time: SystemTime,
+    _private: (),
 }
 impl ProcessMetricsCollector {
     /// Makes a new `ProcessMetricsCollector` instance.
     pub fn new() -> Self {
-        ProcessMetricsCollector {
-            start_time: SystemTime::now(),
-        }
+        ProcessMetricsCollector { _private: () }
     }
 }
 impl Default for ProcessMetricsCollector {
@@ -78,8 +73,11 @@ impl Collect for ProcessMetricsCollector {
                 "cpu_seconds_total",
                 (stat.utime + stat.stime) as f64 / *CLK_TCK,
             ));
-            if let Ok(start_time) = self.start_time.duration_since(UNIX_EPOCH) {
-                metrics.push(gauge("start_time_seconds", start_time.as_secs() as f64));
+            if let Some(boot_time) = boot_time() {
+                metrics.push(gauge(
+                    "start_time_seconds",
+                    boot_time as f64 + stat.start_time as f64 / *CLK_TCK,
+                ));
             }
             metrics.push(gauge("threads_total", f64::from(stat.num_threads)));
             metrics.push(gauge("virtual_memory_bytes", stat.vsize as f64));
@@ -105,6 +103,14 @@ fn open_fds() -> Option<usize> {
     Some(entries.count().saturating_sub(1))
 }
 
+/// The time the system was booted, in seconds since the epoch.
+#[cfg(target_os = "linux")]
+fn boot_time() -> Option<u64> {
+    let stat = fs::read_to_string("/proc/stat").ok()?;
+    let line = stat.lines().find(|line| line.starts_with("btime "))?;
+    line["btime ".len()..].trim().parse().ok()
+}
+
 #[cfg(target_os = "linux")]
 fn counter(name: &str, value: f64) -> Metric {
     let counter = CounterBuilder::new(name)
-- 
2.43.0


From 52d1474139600145747c45f5450ba9c16e3a02fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:19 +0000
Subject: [PATCH 11/11] fix: read each metric's sort key once when gathering,
 so that labels changed meanwhile cannot make it panic

---
 src/registry.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/registry.rs b/src/registry.rs
index 73b62eb..626c424 100644
--- a/src/registry.rs
+++ b/src/registry.rs
@@ -1,4 +1,3 @@
-use std::cmp;
 use std::fmt;
 use std::sync::mpsc;
 use std::sync::Mutex;
@@ -104,13 +103,10 @@ impl Gatherer {
                 self.collectors.swap_remove(i);
             }
         }
-        metrics.sort_by(|a, b| {
-            let result = (a.name(), a.kind()).cmp(&(b.name(), b.kind()));
-            if result == cmp::Ordering::Equal {
-                a.labels().iter().cmp(b.labels().iter())
-            } else {
-                result
-            }
+        // Other threads may change labels at any time, so that each key is read only once
+        metrics.sort_by_cached_key(|m| {
+            let labels = m.labels().iter().cloned().collect::<Vec<_>>();
+            (m.name().clone(), m.kind(), labels)
         });
 
         let mut families: Vec<MetricFamily> = Vec::new();
-- 
2.43.0

