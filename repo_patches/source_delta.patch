From 32070e23bcab6240057536ef4d94e355e1d4fd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 01/27] fix: Signal::at interpolates from the sample before t
 and rejects times out of range

---
 src/core/signal.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index a63f59d..2080780 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -12,7 +12,7 @@
 namespace signal_tl::signal {
 
 Sample Signal::at(double t) const {
-  if (this->begin_time() > t && this->end_time() < t) {
+  if (this->empty() || !(this->begin_time() <= t && t <= this->end_time())) {
     throw std::invalid_argument(
         fmt::format("Signal is undefined for given time instance {}", t));
   }
@@ -25,6 +25,8 @@ Sample Signal::at(double t) const {
   if (it->time == t) {
     return *it;
   }
+  // Interpolate from the closest sample before t.
+  it = std::prev(it);
   return Sample{t, it->interpolate(t), it->derivative};
 }
 
-- 
2.43.0


From ca1399132098ce3e410a3a38193a1a15e21b8b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 02/27] fix: Signal::end_at does not read past the end or
 before the begin

---
 src/include/signal_tl/signal.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/include/signal_tl/signal.hpp b/src/include/signal_tl/signal.hpp
index 9e1679c..d6bde34 100644
--- a/src/include/signal_tl/signal.hpp
+++ b/src/include/signal_tl/signal.hpp
@@ -149,10 +149,9 @@ struct Signal {
       return this->end();
 
     auto it = this->end();
-    while (it->time > t) it = std::prev(it);
-    // Now we have the pointer to the first element from the back whose .time <= t.
-    // So increment by 1 and return
-    return std::next(it);
+    while (it != this->begin() && std::prev(it)->time > t) it = std::prev(it);
+    // Now we have the element after the first one from the back whose .time <= t.
+    return it;
   }
 
   /**
-- 
2.43.0


From fea5ac8c78361cc2df6e64ec50d3314c3ca5e3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 03/27] fix: Signal::push_back refuses NaN timestamps

---
 src/core/signal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index 2080780..3feb796 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -32,7 +32,7 @@ Sample Signal::at(double t) const {
 
 void Signal::push_back(Sample sample) {
   if (!this->samples.empty()) {
-    if (sample.time <= this->end_time()) {
+    if (!(sample.time > this->end_time())) { // also when the time is NaN
       throw std::invalid_argument(fmt::format(
           "Trying to append a Sample timestamped at or before the Signal end_time,"
           "i.e., time is not strictly monotonically increasing."
-- 
2.43.0


From b3656e7c572838dffd9ae9f90c2cb1fe01d0121a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 04/27] fix: Signal::push_back leaves the signal unchanged when
 memory runs out

---
 src/core/signal.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index 3feb796..7a59e7e 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -40,13 +40,17 @@ void Signal::push_back(Sample sample) {
           this->end_time(),
           sample));
     }
-    const auto t = this->samples.back().time;
-    const auto v = this->samples.back().value;
-    auto& last   = this->samples.back();
+  }
+  this->samples.push_back(Sample{sample.time, sample.value, 0.0});
+
+  // Only once the sample has been added, so that a failure leaves the signal as it was.
+  if (this->samples.size() > 1) {
+    auto& last   = *std::prev(this->samples.end(), 2);
+    const auto t = last.time;
+    const auto v = last.value;
 
     last.derivative = (sample.value - v) / (sample.time - t);
   }
-  this->samples.push_back(Sample{sample.time, sample.value, 0.0});
 }
 
 void Signal::push_back(double time, double value) {
-- 
2.43.0


From ba38d2008d1225eb22565c96b804fd8b30ea2ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 05/27] fix: constant infinite signals have slope 0 instead of
 NaN

---
 src/core/signal.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index 7a59e7e..9800817 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -49,7 +49,9 @@ void Signal::push_back(Sample sample) {
     const auto t = last.time;
     const auto v = last.value;
 
-    last.derivative = (sample.value - v) / (sample.time - t);
+    // Equal values have slope 0 even if they are infinite.
+    last.derivative =
+        (sample.value == v) ? 0.0 : (sample.value - v) / (sample.time - t);
   }
 }
 
-- 
2.43.0


From 419fa78c8b48f51b17fda959950422596e366a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 06/27] fix: Signal::resize covers exactly [start, end]

---
 src/core/signal.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index 9800817..d51132a 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -77,8 +77,8 @@ SignalPtr Signal::simplify() const {
 SignalPtr Signal::resize(double start, double end, double fill) const {
   auto sig = std::make_shared<Signal>();
 
-  // Check if begin_time > start, then add filled value
-  if (this->begin_time() > start) {
+  // Check if the signal is undefined at start, then add filled value
+  if (this->empty() || this->begin_time() > start || this->end_time() < start) {
     sig->push_back(Sample{start, fill, 0.0});
   }
 
@@ -86,15 +86,17 @@ SignalPtr Signal::resize(double start, double end, double fill) const {
   for (auto i = this->begin(); i != this->end(); i++) {
     const double t = i->time;
     // If current sample is timed below start, ...
-    if (std::next(i) != this->end() && std::next(i)->time > start) {
+    if (t < start) {
       // and next sample is timed after `start`, append an intermediate value
-      sig->push_back(Sample{start, i->interpolate(start)});
+      if (std::next(i) != this->end() && std::next(i)->time > start) {
+        sig->push_back(Sample{start, i->interpolate(start)});
+      }
     } else if (start <= t && t <= end) {
       // If the samples are within the desired time range, keep the samples.
       sig->push_back(*i);
     } else if (t > end) {
       // If we are out of the range, ...
-      if (i != this->begin() && std::prev(i)->time < end) {
+      if (i != this->begin() && std::prev(i)->time < end && sig->end_time() < end) {
         // and the previous sample is within the range, interpolate from the last.
         sig->push_back(Sample{end, std::prev(i)->interpolate(end)});
       } else {
@@ -104,6 +106,11 @@ SignalPtr Signal::resize(double start, double end, double fill) const {
     }
   }
 
+  // Check if the signal is undefined at end, then add filled value
+  if (sig->end_time() < end) {
+    sig->push_back(Sample{end, fill, 0.0});
+  }
+
   return sig;
 }
 
-- 
2.43.0


From 9466c06eae54136bb32ee15a29055160568e1fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 07/27] fix: synchronize signals with different start times

---
 src/core/signal.cc | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index d51132a..5a07f0b 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -137,22 +137,14 @@ synchronize(const std::shared_ptr<Signal>& x, const std::shared_ptr<Signal>& y)
   auto xv = std::vector<Sample>{};
   auto yv = std::vector<Sample>{};
 
-  // Iterator to the first element where element.time <= begin_time.
-  // If the iterator begins after begin_time, get the prev (if it exists) and
-  // interpolate from it.
+  // Iterator to the first element where element.time >= begin_time.
+  // One of the signals has a sample at begin_time: the loop below interpolates the other
+  // one there if needed.
   constexpr auto comp_time = [](const Sample& a, const Sample& b) -> bool {
     return a.time < b.time;
   };
   auto i = std::lower_bound(x->begin(), x->end(), Sample{begin_time, 0.0}, comp_time);
-  if (i->time > begin_time && i != x->begin()) {
-    xv.push_back(Sample{
-        begin_time, std::prev(i)->interpolate(begin_time), std::prev(i)->derivative});
-  }
   auto j = std::lower_bound(y->begin(), y->end(), Sample{begin_time, 0.0}, comp_time);
-  if (j->time > begin_time && j != y->begin()) {
-    yv.push_back(Sample{
-        begin_time, std::prev(j)->interpolate(begin_time), std::prev(i)->derivative});
-  }
 
   // Now, we have to track the timestamps.
   while (i != x->end() && j != y->end()) {
-- 
2.43.0


From b992dbd3ffd7c6a3d195427fe798b054eb62a58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 08/27] fix: synchronize refuses signals without a common time
 range

---
 src/core/signal.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index 5a07f0b..de0d221 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -130,7 +130,12 @@ SignalPtr Signal::resize_shift(double start, double end, double fill, double dt)
 std::tuple<std::shared_ptr<Signal>, std::shared_ptr<Signal>>
 synchronize(const std::shared_ptr<Signal>& x, const std::shared_ptr<Signal>& y) {
   const double begin_time = std::max(x->begin_time(), y->begin_time());
-  // const double end_time   = std::min(x->end_time(), y->end_time());
+  const double end_time   = std::min(x->end_time(), y->end_time());
+
+  if (x->empty() || y->empty() || begin_time > end_time) {
+    throw std::invalid_argument(
+        "Trying to synchronize Signals that have no time instant in common.");
+  }
 
   // These will store the new series of Samples, containing a sample for every
   // time instance in x and y, and the time points where they intersect.
-- 
2.43.0


From 0a45b6c5f47ef02abe0ce91d732bcda6776c834a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 09/27] fix: Interval::has_value was inverted, so bounded
 operators ignored their interval

---
 src/include/signal_tl/ast.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/signal_tl/ast.hpp b/src/include/signal_tl/ast.hpp
index 54de00c..58b979b 100644
--- a/src/include/signal_tl/ast.hpp
+++ b/src/include/signal_tl/ast.hpp
@@ -190,13 +190,13 @@ struct Interval {
     return start_zero && end_inf;
   }
 
-  /// Check if the interval is [0, inf).
+  /// Check if the interval is something other than [0, inf).
   ///
   /// NOTE: Purely for backwards compatibility to a version of signal_tl that
   /// dealt with intervals as `std::pair<double, double>`, and the interval was
   /// stored inside an `std::optional` field in the Temporal operators.
   [[nodiscard]] bool has_value() const {
-    return this->is_zero_to_inf();
+    return !this->is_zero_to_inf();
   }
 };
 
-- 
2.43.0


From 25247d91ed1ee03246080a0dc8f37d1c1fecfe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 10/27] fix: bounded always and eventually evaluate the window
 [t + a, t + b]

---
 src/robust_semantics/classic_robustness.cc |  8 +--
 src/robust_semantics/minmax.cc             | 84 ++++++++++++++--------
 2 files changed, 58 insertions(+), 34 deletions(-)

diff --git a/src/robust_semantics/classic_robustness.cc b/src/robust_semantics/classic_robustness.cc
index d047c5a..55d9980 100644
--- a/src/robust_semantics/classic_robustness.cc
+++ b/src/robust_semantics/classic_robustness.cc
@@ -169,9 +169,7 @@ SignalPtr RobustnessOp::operator()(const ast::EventuallyPtr& e) const {
   const auto [a, b] = e->interval.as_double();
   if (b - a < 0) {
     throw std::logic_error("Eventually operator: b < a in interval [a,b]");
-  } else if (b - a == 0) {
-    return y;
-  } else if (b - a >= y->end_time() - y->begin_time()) {
+  } else if (a == 0 && b >= y->end_time() - y->begin_time()) {
     return compute_max_seq(y);
   } else {
     return compute_max_seq(y, a, b);
@@ -187,9 +185,7 @@ SignalPtr RobustnessOp::operator()(const ast::AlwaysPtr& e) const {
   const auto [a, b] = e->interval.as_double();
   if (b - a < 0) {
     throw std::logic_error("Always operator: b < a in interval [a,b]");
-  } else if (b - a == 0) {
-    return y;
-  } else if (b - a >= y->end_time() - y->begin_time()) {
+  } else if (a == 0 && b >= y->end_time() - y->begin_time()) {
     return compute_min_seq(y);
   } else {
     return compute_min_seq(y, a, b);
diff --git a/src/robust_semantics/minmax.cc b/src/robust_semantics/minmax.cc
index adf3aea..90872e7 100644
--- a/src/robust_semantics/minmax.cc
+++ b/src/robust_semantics/minmax.cc
@@ -1,7 +1,7 @@
 #include "minmax.hpp"
 #include "mono_wedge.h" // for mono_wedge_update
 
-#include <algorithm>  // for max, reverse
+#include <algorithm>  // for max, reverse, sort, unique
 #include <deque>      // for _Deque_iterator, deque, operator-
 #include <functional> // for greater_equal, less_equal
 #include <iterator>   // for prev, next, begin
@@ -10,6 +10,7 @@
 #include <numeric>    // for accumulate
 #include <tuple>      // for make_tuple, tuple_element<>::type
 #include <utility>    // for tuple_element<>::type
+#include <vector>     // for vector
 
 #include <cassert> // for assert
 
@@ -106,39 +107,66 @@ SignalPtr compute_minmax_seq(const SignalPtr& x, Compare comp) {
 
 template <typename Compare>
 SignalPtr compute_minmax_seq(const SignalPtr& x, double a, double b, Compare comp) {
-  const auto width      = b - a;
+  if (x->size() < 2) {
+    return x;
+  }
+
   const auto begin_time = x->begin_time();
   const auto end_time   = x->end_time();
 
-  auto x_ = (a == 0)
-                ? x
-                : x->resize_shift(
-                      begin_time + width, end_time + width, x->back().value, -width);
-
-  auto z       = std::make_shared<Signal>();
-  auto samples = std::deque<Sample>{x_->begin(), x_->end()};
-  auto window  = std::deque<Sample>{};
-
-  auto i = std::begin(samples);
-  // -- Read in values in [0, width)
-  for (; i->time < x->begin_time() + width; i++) {
-    mono_wedge::mono_wedge_update(window, *i, comp);
+  // The last value of the signal holds after its end.
+  const auto value_at = [&x, end_time](double t) {
+    return (t < end_time) ? x->at(t).value : x->back().value;
+  };
+
+  // The times where an edge of the window [t + a, t + b] is at a sample.
+  auto times = std::vector<double>{begin_time, end_time};
+  for (const auto& s : *x) {
+    for (const auto t : {s.time - a, s.time - b}) {
+      if (begin_time < t && t < end_time) {
+        times.push_back(t);
+      }
+    }
   }
+  std::sort(times.begin(), times.end());
+  times.erase(std::unique(times.begin(), times.end()), times.end());
+
+  auto z      = std::make_shared<Signal>();
+  auto window = std::deque<Sample>{};
+  auto i      = x->begin();
+
+  for (auto t = std::next(times.begin()); t != times.end(); t++) {
+    const auto t0  = *std::prev(t);
+    const auto t1  = *t;
+    const auto mid = t0 + (t1 - t0) / 2;
+    // The values at the edges of the window move along a line from t0 to t1, ...
+    auto opt = compute_minmax_pair(
+        std::make_shared<Signal>(std::vector<Sample>{
+            {t0, value_at(t0 + a)}, {t1, value_at(t1 + a)}}),
+        std::make_shared<Signal>(std::vector<Sample>{
+            {t0, value_at(t0 + b)}, {t1, value_at(t1 + b)}}),
+        comp,
+        true);
+
+    // ... and the samples between the edges remain the same.
+    for (; i != x->end() && i->time <= mid + b; i++) {
+      mono_wedge::mono_wedge_update(window, *i, comp);
+    }
+    while (!window.empty() && window.front().time < mid + a) { window.pop_front(); }
+    if (!window.empty()) {
+      const auto v = window.front().value;
+      opt          = compute_minmax_pair(
+          opt,
+          std::make_shared<Signal>(std::vector<Sample>{{t0, v}, {t1, v}}),
+          comp,
+          false);
+    }
 
-  // -- Stream in the rest of the signal.
-  for (; i != samples.end(); i++) {
-    if (i->time - a > window.front().time) {
-      // Add the sample for time M.front + a
-      i = samples.insert(
-          i,
-          Sample{
-              window.front().time + a,
-              std::prev(i)->interpolate(window.front().time + a),
-              0.0});
+    for (const auto& s : *opt) {
+      if (z->empty() || s.time > z->end_time()) {
+        z->push_back(s);
+      }
     }
-    mono_wedge::mono_wedge_update(window, *i, comp);
-    while (window.front().time <= i->time - a) { window.pop_front(); }
-    z->push_back(i->time, i->value);
   }
 
   return z->simplify();
-- 
2.43.0


From f506e5ff3bf9d48455ca89eec5b40f36038045f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 11/27] fix: always and eventually of an empty signal do not
 read its last sample

---
 src/robust_semantics/minmax.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/robust_semantics/minmax.cc b/src/robust_semantics/minmax.cc
index 90872e7..b7434d9 100644
--- a/src/robust_semantics/minmax.cc
+++ b/src/robust_semantics/minmax.cc
@@ -91,6 +91,10 @@ compute_minmax_pair(const std::vector<SignalPtr>& xs, Compare comp, bool synchro
 
 template <typename Compare>
 SignalPtr compute_minmax_seq(const SignalPtr& x, Compare comp) {
+  if (x->empty()) {
+    return x;
+  }
+
   auto opt = x->back();
   auto z   = std::vector<Sample>{};
   z.reserve(2 * x->size());
-- 
2.43.0


From 50f4d8f74256d4cc64bac5bfb9d3742fc8b7fd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 12/27] fix: unbounded always and eventually are exact between
 samples

---
 src/robust_semantics/minmax.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/robust_semantics/minmax.cc b/src/robust_semantics/minmax.cc
index b7434d9..f9c3bb4 100644
--- a/src/robust_semantics/minmax.cc
+++ b/src/robust_semantics/minmax.cc
@@ -101,7 +101,14 @@ SignalPtr compute_minmax_seq(const SignalPtr& x, Compare comp) {
   z.push_back(x->back());
 
   for (auto i = std::next(x->rbegin()); i != x->rend(); i++) {
-    opt = (comp(*i, opt)) ? *i : opt;
+    if (comp(*i, opt)) {
+      // The optimum is that of the later samples from where the signal meets it.
+      const double t = i->time + (opt.value - i->value) / i->derivative;
+      if (t > i->time && t < z.back().time) {
+        z.push_back({t, opt.value});
+      }
+      opt = *i;
+    }
     z.push_back({i->time, opt.value});
   }
 
-- 
2.43.0


From 79627f774ca8cc5e68fa26de9e939f875ef30a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 13/27] fix: rounding of a crossing time does not make min and
 max of signals throw

---
 src/robust_semantics/minmax.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/robust_semantics/minmax.cc b/src/robust_semantics/minmax.cc
index f9c3bb4..588775b 100644
--- a/src/robust_semantics/minmax.cc
+++ b/src/robust_semantics/minmax.cc
@@ -42,7 +42,7 @@ SignalPtr compute_minmax_pair(
     if (comp(*i, *j)) {
       if (last_chosen == Chosen::Y) {
         double intercept_time = std::prev(j)->time_intersect(*std::prev(i));
-        if (intercept_time > out->end_time() && intercept_time != i->time) {
+        if (intercept_time > out->end_time() && intercept_time < i->time) {
           out->push_back(
               Sample{intercept_time, std::prev(j)->interpolate(intercept_time)});
         }
@@ -52,7 +52,7 @@ SignalPtr compute_minmax_pair(
     } else {
       if (last_chosen == Chosen::X) {
         double intercept_time = std::prev(i)->time_intersect(*std::prev(j));
-        if (intercept_time > out->end_time() && intercept_time != j->time) {
+        if (intercept_time > out->end_time() && intercept_time < j->time) {
           out->push_back(
               Sample{intercept_time, std::prev(i)->interpolate(intercept_time)});
         }
-- 
2.43.0


From 819e1ad0c942bcd9d42d230519bf98f4b1865002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 14/27] fix: until does not hold when its right operand never
 does

---
 src/robust_semantics/classic_robustness.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/robust_semantics/classic_robustness.cc b/src/robust_semantics/classic_robustness.cc
index 55d9980..3cac821 100644
--- a/src/robust_semantics/classic_robustness.cc
+++ b/src/robust_semantics/classic_robustness.cc
@@ -38,14 +38,12 @@ SignalPtr compute_until(const SignalPtr& input_x, const SignalPtr& input_y) {
 
   // TODO(anand): This doesn't handle crossing signals well...
 
-  double prev      = TOP;
-  double max_right = BOTTOM;
+  double prev = BOTTOM;
 
   for (auto [i, j] = std::make_tuple(x->rbegin(), y->rbegin());
        i != x->rend() && j != y->rend();
        i++, j++) {
-    max_right = std::max(max_right, j->value);
-    prev      = std::max({j->value, std::min(i->value, prev), -max_right});
+    prev = std::max(j->value, std::min(i->value, prev));
     sigstack.push_back({i->time, prev});
   }
   std::reverse(sigstack.begin(), sigstack.end());
-- 
2.43.0


From f69fed1cf8ad2e9f6c16ad4394244c98a269c62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 15/27] fix: until is exact between samples

---
 src/robust_semantics/classic_robustness.cc | 43 +++++++++++++++++-----
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/robust_semantics/classic_robustness.cc b/src/robust_semantics/classic_robustness.cc
index 3cac821..0f10916 100644
--- a/src/robust_semantics/classic_robustness.cc
+++ b/src/robust_semantics/classic_robustness.cc
@@ -9,7 +9,7 @@
 #include <cassert>    // for assert
 #include <cmath>      // for isinf
 #include <functional> // for negate
-#include <iterator>   // for back_insert_iterator, back_inserter
+#include <iterator>   // for back_insert_iterator, back_inserter, next, prev
 #include <limits>     // for numeric_limits
 #include <map>        // for operator!=
 #include <memory>     // for __shared_ptr_access, make_shared
@@ -34,17 +34,42 @@ SignalPtr compute_until(const SignalPtr& input_x, const SignalPtr& input_y) {
   assert(x->begin_time() == y->begin_time());
   assert(x->end_time() == y->end_time());
 
-  auto sigstack = std::vector<Sample>();
+  auto sigstack = std::vector<Sample>{y->back()};
 
-  // TODO(anand): This doesn't handle crossing signals well...
-
-  double prev = BOTTOM;
-
-  for (auto [i, j] = std::make_tuple(x->rbegin(), y->rbegin());
+  for (auto [i, j] =
+           std::make_tuple(std::next(x->rbegin()), std::next(y->rbegin()));
        i != x->rend() && j != y->rend();
        i++, j++) {
-    prev = std::max(j->value, std::min(i->value, prev));
-    sigstack.push_back({i->time, prev});
+    const auto& i1 = *std::prev(i);
+    const auto& j1 = *std::prev(j);
+
+    const auto make_segment = [t0 = i->time, t1 = i1.time](double v0, double v1) {
+      return std::make_shared<Signal>(std::vector<Sample>{{t0, v0}, {t1, v1}});
+    };
+    const auto left  = make_segment(i->value, i1.value);
+    const auto right = make_segment(j->value, j1.value);
+    // The value at the end of this segment.
+    const double next = sigstack.back().value;
+
+    auto z = right;
+    if (i->value >= i1.value) {
+      // The minimum of left from t to t' is its value at t'.
+      const double last = std::min(i1.value, next);
+      z = compute_elementwise_max(
+          compute_max_seq(compute_elementwise_min(left, right)),
+          make_segment(last, last));
+    } else {
+      // The minimum of left from t to t' is its value at t.
+      z = compute_elementwise_min(
+          left,
+          compute_elementwise_max(compute_max_seq(right), make_segment(next, next)));
+    }
+    z = compute_elementwise_max(z, right);
+
+    std::copy_if(
+        z->rbegin(), z->rend(), std::back_inserter(sigstack), [t1 = i1.time](auto&& s) {
+          return s.time < t1;
+        });
   }
   std::reverse(sigstack.begin(), sigstack.end());
   auto out = std::make_shared<Signal>(sigstack);
-- 
2.43.0


From e4e0ad3bd6d99732f74cdc001b45bfabd5ecaadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 16/27] fix: evaluate constants over a trace with a single time
 instant

---
 src/robust_semantics/classic_robustness.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/robust_semantics/classic_robustness.cc b/src/robust_semantics/classic_robustness.cc
index 0f10916..10ad7b0 100644
--- a/src/robust_semantics/classic_robustness.cc
+++ b/src/robust_semantics/classic_robustness.cc
@@ -129,7 +129,10 @@ SignalPtr compute_robustness(const ast::Expr& phi, const signal::Trace& trace, b
 
 SignalPtr RobustnessOp::operator()(const ast::Const e) const {
   const double val = (e.value) ? static_cast<double>(TOP) : static_cast<double>(BOTTOM);
-  auto samples     = std::vector<Sample>{{min_time, val, 0.0}, {max_time, val, 0.0}};
+  auto samples     = std::vector<Sample>{{min_time, val, 0.0}};
+  if (max_time != min_time) {
+    samples.push_back({max_time, val, 0.0});
+  }
   return std::make_shared<Signal>(samples);
 }
 
-- 
2.43.0


From f179d38a1caed3a632cfbd217a0f07303359ef02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 17/27] fix: combining an And with false, or an Or with true,
 does not throw

---
 src/core/ast.cc | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/core/ast.cc b/src/core/ast.cc
index dc66ac7..d46a037 100644
--- a/src/core/ast.cc
+++ b/src/core/ast.cc
@@ -29,16 +29,15 @@ using utils::overloaded;
 namespace {
 
 Expr AndHelper(const AndPtr& lhs, const Expr& rhs) {
+  if (const auto c_ptr = std::get_if<Const>(&rhs)) {
+    return (c_ptr->value) ? Expr{lhs} : Expr{*c_ptr};
+  }
+
   std::vector<Expr> args{lhs->args};
 
   std::visit(
       overloaded{
           [&args](const auto e) { args.push_back(e); },
-          [&args](const Const e) {
-            if (!e.value) {
-              args = {Expr{e}};
-            }
-          },
           [&args](const AndPtr& e) {
             args.reserve(
                 args.size() +
@@ -50,16 +49,15 @@ Expr AndHelper(const AndPtr& lhs, const Expr& rhs) {
 }
 
 Expr OrHelper(const OrPtr& lhs, const Expr& rhs) {
+  if (const auto c_ptr = std::get_if<Const>(&rhs)) {
+    return (!c_ptr->value) ? Expr{lhs} : Expr{*c_ptr};
+  }
+
   std::vector<Expr> args{lhs->args};
 
   std::visit(
       overloaded{
           [&args](const auto e) { args.push_back(e); },
-          [&args](const Const e) {
-            if (e.value) {
-              args = {Expr{e}};
-            }
-          },
           [&args](const OrPtr& e) {
             args.reserve(
                 args.size() +
-- 
2.43.0


From 58dc9651110f110b551ae1d8638fcce5f6b193af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 18/27] fix: print unbounded intervals of always and eventually

---
 src/include/signal_tl/fmt.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/signal_tl/fmt.hpp b/src/include/signal_tl/fmt.hpp
index 31136fb..702d439 100644
--- a/src/include/signal_tl/fmt.hpp
+++ b/src/include/signal_tl/fmt.hpp
@@ -92,7 +92,7 @@ struct fmt::formatter<signal_tl::ast::Always>
     if (e.interval.has_value()) {
       const auto [a, b] = e.interval.as_double();
       if (std::isinf(b)) {
-        return format_to(ctx.out(), "G[{}, int) {}", a, e.arg);
+        return format_to(ctx.out(), "G[{}, inf) {}", a, e.arg);
       }
       return format_to(ctx.out(), "G[{},{}] {}", a, b, e.arg);
     }
@@ -108,7 +108,7 @@ struct fmt::formatter<signal_tl::ast::Eventually>
     if (e.interval.has_value()) {
       const auto [a, b] = e.interval.as_double();
       if (std::isinf(b)) {
-        return format_to(ctx.out(), "F[{}, inf] {}", a, e.arg);
+        return format_to(ctx.out(), "F[{}, inf) {}", a, e.arg);
       }
       return format_to(ctx.out(), "F[{},{}] {}", a, b, e.arg);
     }
-- 
2.43.0


From f4b462b346b290a7ff10b29a7e9967fdc058786b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 19/27] fix: print nested until formulas unambiguously

---
 src/include/signal_tl/fmt.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/include/signal_tl/fmt.hpp b/src/include/signal_tl/fmt.hpp
index 702d439..41f64b7 100644
--- a/src/include/signal_tl/fmt.hpp
+++ b/src/include/signal_tl/fmt.hpp
@@ -125,11 +125,11 @@ struct fmt::formatter<signal_tl::ast::Until>
     if (e.interval.has_value()) {
       const auto [a, b] = e.interval.as_double();
       if (std::isinf(b)) {
-        return format_to(ctx.out(), "{} U[{}, inf) {}", e1, a, e2);
+        return format_to(ctx.out(), "({} U[{}, inf) {})", e1, a, e2);
       }
-      return format_to(ctx.out(), "{} U[{},{}] {}", e1, a, b, e2);
+      return format_to(ctx.out(), "({} U[{},{}] {})", e1, a, b, e2);
     }
-    return format_to(ctx.out(), "{} U {}", e1, e2);
+    return format_to(ctx.out(), "({} U {})", e1, e2);
   }
 };
 
-- 
2.43.0


From fea63d1d38804be3ae4ef4ba3045877ebda76968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 20/27] fix: parse predicates with the constant on the left

---
 src/parser/actions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/actions.hpp b/src/parser/actions.hpp
index 4db8b4b..f224d20 100644
--- a/src/parser/actions.hpp
+++ b/src/parser/actions.hpp
@@ -209,7 +209,7 @@ struct action<PredicateTerm> {
 
     if (state.predicate_type == PredicateType::TWO) {
       // For Type TWO, we need to flip the direction of the comparison
-      switch (state.comparison_type.value()) {
+      switch (comparison_type) {
         case ast::ComparisonOp::LT:
           comparison_type = ast::ComparisonOp::GT;
           break;
-- 
2.43.0


From 9fe1961c1d0aff48deab1e44b6c90ec2f20d9ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 21/27] fix: refuse anything but one expression in parentheses

---
 src/parser/grammar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/grammar.hpp b/src/parser/grammar.hpp
index 847a0b6..c6ac02f 100644
--- a/src/parser/grammar.hpp
+++ b/src/parser/grammar.hpp
@@ -157,7 +157,7 @@ using Expression = peg::sor<
     UntilTerm,
     Term>;
 
-using TermTail = peg::until<RParen, Expression>;
+using TermTail = peg::seq<Expression, RParen>;
 struct Term : peg::sor<peg::if_must<LParen, TermTail>, BooleanLiteral, Identifier> {};
 
 struct Assertion : peg::if_must<KwAssert, Identifier, Term> {};
-- 
2.43.0


From 5a3ea1e235e46ac85f37a6ac7b4804aad2e635db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 22/27] fix: refuse anything but one command in parentheses

---
 src/parser/grammar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/grammar.hpp b/src/parser/grammar.hpp
index c6ac02f..b90937c 100644
--- a/src/parser/grammar.hpp
+++ b/src/parser/grammar.hpp
@@ -189,7 +189,7 @@ struct Command : peg::must<AllowedCommands> {};
 /// We will hard code the top level commands, like `define-formula` and
 /// `assert` as that will allow us to directly reason about them. A command is
 /// essentially intrinsic to the specification language.
-using AnyCommandTail = peg::until<RParen, Command>;
+using AnyCommandTail = peg::seq<Command, RParen>;
 struct AnyCommand : peg::if_must<LParen, AnyCommandTail> {};
 
 struct StatementList : peg::seq<Skip, peg::until<peg::eof, AnyCommand, Skip>> {};
-- 
2.43.0


From 4536bf35891a020e457360ecae3e778211737a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 23/27] fix: accept terms in redundant parentheses

---
 src/parser/actions.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/actions.hpp b/src/parser/actions.hpp
index f224d20..65195b8 100644
--- a/src/parser/actions.hpp
+++ b/src/parser/actions.hpp
@@ -437,6 +437,8 @@ struct action<Term> {
       // Copy the pointer to the formula with the corresponding id
       state.terms.push_back(global_state.formulas.at(state.identifiers.back()));
       state.identifiers.pop_back();
+    } else if (state.terms.size() == 1) { // And if it is a Term in parentheses
+      // The inner Term already is on the list of terms.
     } else {
       // Otherwise, it doesn't make sense that there are no results, as this
       // means that the parser failed. This should be unreachable.
-- 
2.43.0


From 18fb2eb33d927d60a143379e2fc28f63feadbcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 24/27] fix: parse real numbers independently of the global
 locale

---
 src/parser/actions.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser/actions.hpp b/src/parser/actions.hpp
index 65195b8..2d072a0 100644
--- a/src/parser/actions.hpp
+++ b/src/parser/actions.hpp
@@ -11,9 +11,11 @@
 
 // #define NDEBUG
 #include <cassert>
+#include <locale>
 #include <map>
 #include <memory>
 #include <optional>
+#include <sstream>
 #include <variant>
 #include <vector>
 
@@ -136,7 +138,13 @@ template <>
 struct action<DoubleLiteral> {
   template <typename ActionInput>
   static void apply(const ActionInput& in, GlobalParserState&, ParserState& state) {
-    double val             = std::stod(in.string());
+    // Unlike std::stod, this doesn't depend on the global locale.
+    auto stream = std::istringstream(in.string());
+    stream.imbue(std::locale::classic());
+    double val = 0.0;
+    if (!(stream >> val)) {
+      throw peg::parse_error("number out of range", in);
+    }
     state.primitive_result = PrimitiveState(val);
   }
 };
-- 
2.43.0


From 20fbd2d964aafc29127e5c45fc9fa1ac05105a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:25 +0000
Subject: [PATCH 25/27] fix: Interval refuses NaN bounds

---
 src/include/signal_tl/ast.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/signal_tl/ast.hpp b/src/include/signal_tl/ast.hpp
index 58b979b..59fc0b2 100644
--- a/src/include/signal_tl/ast.hpp
+++ b/src/include/signal_tl/ast.hpp
@@ -160,7 +160,7 @@ struct Interval {
   Interval(double a, double b) : low{a}, high{b} {
     if (a < 0 || b < 0) {
       throw std::invalid_argument("Interval cannot have negative values");
-    } else if (b <= a) {
+    } else if (!(b > a)) { // also when one of them is NaN
       throw std::invalid_argument("Interval [a,b] cannot have b <= a");
     }
   }
-- 
2.43.0


From e7ddc39d0353a7e9193aeedd48b8bd15a0692cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 26/27] fix: refuse terms nested too deeply instead of
 exhausting the stack

---
 src/parser/actions.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser/actions.hpp b/src/parser/actions.hpp
index 2d072a0..1bda687 100644
--- a/src/parser/actions.hpp
+++ b/src/parser/actions.hpp
@@ -38,7 +38,7 @@ enum struct PredicateType { ONE, TWO };
 /// grammar. This keeps track of whatever is required to make a Term, without
 /// polluting the context of parent rules in the AST.
 struct ParserState {
-  /// Purely here for debugging purposes.
+  /// How many Terms the current one is nested in.
   unsigned long long int level;
 
   /// Whenever an Expression is completed, this field gets populared. Later,
@@ -75,6 +75,9 @@ struct ParserState {
   std::vector<ast::Expr> terms;
 };
 
+/// Terms nested deeper than this are refused, as they would exhaust the call stack.
+constexpr unsigned long long int MAX_NESTING_LEVEL = 1000;
+
 /// This maintains the global list of formulas and assertions that have been
 /// parsed within the specification.
 struct GlobalParserState {
@@ -408,6 +411,9 @@ struct action<Term> {
     // Create a new layer on the stack
     ParserState new_local_state{};
     new_local_state.level = state.level + 1;
+    if (new_local_state.level > MAX_NESTING_LEVEL) {
+      throw peg::parse_error("terms are nested too deeply", in);
+    }
 
     // Parse the input with the new state.
     bool ret = tao::pegtl::match<Rule, A, M, Action, Control>(
-- 
2.43.0


From 3691e9c8c7db21fd55562cbb0e3b539b5116ae66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:03 +0000
Subject: [PATCH 27/27] fix: Signal refuses a NaN timestamp on its first sample

---
 src/core/signal.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index de0d221..0e75208 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -2,6 +2,7 @@
 #include "signal_tl/fmt.hpp"    // IWYU pragma: keep
 
 #include <algorithm>    // for lower_bound, max
+#include <cmath>        // for isnan
 #include <fmt/format.h> // for format
 #include <iterator>     // for prev, next
 #include <memory>       // for shared_ptr, __shared_ptr_access, mak...
@@ -31,8 +32,11 @@ Sample Signal::at(double t) const {
 }
 
 void Signal::push_back(Sample sample) {
+  if (std::isnan(sample.time)) {
+    throw std::invalid_argument("Trying to append a Sample timestamped NaN.");
+  }
   if (!this->samples.empty()) {
-    if (!(sample.time > this->end_time())) { // also when the time is NaN
+    if (!(sample.time > this->end_time())) {
       throw std::invalid_argument(fmt::format(
           "Trying to append a Sample timestamped at or before the Signal end_time,"
           "i.e., time is not strictly monotonically increasing."
-- 
2.43.0

