From b362ac63948f785cdb8787f2f06fed21a88dfb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:26 +0000
Subject: [PATCH 01/21] fix: Signal::at rejects times outside the signal and
 interpolates from the earlier sample

The guard used && where || is meant, so it never fired and times past the end
dereferenced end(). Interpolation used the sample after t, whose slope belongs
to the next segment, instead of the closest sample before t.
---
 src/core/signal.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index a63f59d..f5ce938 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -12,7 +12,7 @@
 namespace signal_tl::signal {
 
 Sample Signal::at(double t) const {
-  if (this->begin_time() > t && this->end_time() < t) {
+  if (this->empty() || this->begin_time() > t || this->end_time() < t) {
     throw std::invalid_argument(
         fmt::format("Signal is undefined for given time instance {}", t));
   }
@@ -25,6 +25,8 @@ Sample Signal::at(double t) const {
   if (it->time == t) {
     return *it;
   }
+  // Interpolate from the closest sample before `t`.
+  it = std::prev(it);
   return Sample{t, it->interpolate(t), it->derivative};
 }
 
-- 
2.43.0


From a451f87415e1b8ba156c176d8fb35aed5a7df4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:26 +0000
Subject: [PATCH 02/21] fix: Signal::end_at no longer reads past the samples

It dereferenced end() and walked before begin() for times before the signal.
---
 src/include/signal_tl/signal.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/include/signal_tl/signal.hpp b/src/include/signal_tl/signal.hpp
index 9e1679c..b06b92b 100644
--- a/src/include/signal_tl/signal.hpp
+++ b/src/include/signal_tl/signal.hpp
@@ -148,11 +148,10 @@ struct Signal {
     if (this->end_time() <= t)
       return this->end();
 
-    auto it = this->end();
-    while (it->time > t) it = std::prev(it);
-    // Now we have the pointer to the first element from the back whose .time <= t.
-    // So increment by 1 and return
-    return std::next(it);
+    constexpr auto comp_op = [](const Sample& a, const Sample& b) {
+      return a.time < b.time;
+    };
+    return std::upper_bound(this->begin(), this->end(), Sample{t, 0.0}, comp_op);
   }
 
   /**
-- 
2.43.0


From 2f47cdc972c094f3382b76cf39e58a19d57217a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:26 +0000
Subject: [PATCH 03/21] fix: Signal::resize restricts and extends as documented

Every segment after start re-inserted a sample at start, so all but trivial
calls threw; and nothing was filled in after the end of the signal.
---
 src/core/signal.cc | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index f5ce938..53356c1 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -71,8 +71,8 @@ SignalPtr Signal::simplify() const {
 SignalPtr Signal::resize(double start, double end, double fill) const {
   auto sig = std::make_shared<Signal>();
 
-  // Check if begin_time > start, then add filled value
-  if (this->begin_time() > start) {
+  // If the signal is not defined at `start`, then add filled value
+  if (this->empty() || this->begin_time() > start || this->end_time() < start) {
     sig->push_back(Sample{start, fill, 0.0});
   }
 
@@ -80,9 +80,11 @@ SignalPtr Signal::resize(double start, double end, double fill) const {
   for (auto i = this->begin(); i != this->end(); i++) {
     const double t = i->time;
     // If current sample is timed below start, ...
-    if (std::next(i) != this->end() && std::next(i)->time > start) {
+    if (t < start) {
       // and next sample is timed after `start`, append an intermediate value
-      sig->push_back(Sample{start, i->interpolate(start)});
+      if (std::next(i) != this->end() && std::next(i)->time > start) {
+        sig->push_back(Sample{start, i->interpolate(start)});
+      }
     } else if (start <= t && t <= end) {
       // If the samples are within the desired time range, keep the samples.
       sig->push_back(*i);
@@ -90,7 +92,9 @@ SignalPtr Signal::resize(double start, double end, double fill) const {
       // If we are out of the range, ...
       if (i != this->begin() && std::prev(i)->time < end) {
         // and the previous sample is within the range, interpolate from the last.
-        sig->push_back(Sample{end, std::prev(i)->interpolate(end)});
+        if (sig->end_time() < end) {
+          sig->push_back(Sample{end, std::prev(i)->interpolate(end)});
+        }
       } else {
         // TODO(anand): Does it make sense to terminate early?
         break;
@@ -98,6 +102,11 @@ SignalPtr Signal::resize(double start, double end, double fill) const {
     }
   }
 
+  // If the signal is not defined at `end`, then add filled value
+  if (sig->end_time() < end) {
+    sig->push_back(Sample{end, fill, 0.0});
+  }
+
   return sig;
 }
 
-- 
2.43.0


From 933b720df63c601a080431433b6cdcd55975df75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:52 +0000
Subject: [PATCH 04/21] fix: Signal::push_back rejects samples timestamped NaN

A NaN time compared false against the end time, slipped past the guard and
left the signal without a strictly increasing time axis.
---
 src/core/signal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index 53356c1..17a6fde 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -32,7 +32,7 @@ Sample Signal::at(double t) const {
 
 void Signal::push_back(Sample sample) {
   if (!this->samples.empty()) {
-    if (sample.time <= this->end_time()) {
+    if (!(sample.time > this->end_time())) {
       throw std::invalid_argument(fmt::format(
           "Trying to append a Sample timestamped at or before the Signal end_time,"
           "i.e., time is not strictly monotonically increasing."
-- 
2.43.0


From 0d8152b0b00e7713d2f0cee02ee2a7a23e09a591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:52 +0000
Subject: [PATCH 05/21] fix: constant segments at +/-infinity have slope 0, not
 NaN

The robustness of true/false is a signal at +/-inf; its slope came out as
inf - inf = NaN, and interpolating it poisoned every And/Or with a constant.
---
 src/core/signal.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index 17a6fde..5cd56f3 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -44,7 +44,9 @@ void Signal::push_back(Sample sample) {
     const auto v = this->samples.back().value;
     auto& last   = this->samples.back();
 
-    last.derivative = (sample.value - v) / (sample.time - t);
+    // A constant segment is flat, also at +/-inf (where the difference is NaN).
+    last.derivative =
+        (sample.value == v) ? 0.0 : (sample.value - v) / (sample.time - t);
   }
   this->samples.push_back(Sample{sample.time, sample.value, 0.0});
 }
-- 
2.43.0


From d7341456d3c81d3323259508d4869f8e5d1d0940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:52 +0000
Subject: [PATCH 06/21] fix: synchronize handles signals that start or end
 apart

A begin time that only one signal sampled was inserted twice (so the call
threw), the slope was read from the wrong signal (before its first sample),
and signals without a common time range dereferenced end().
---
 src/core/signal.cc             | 16 ++++++----------
 src/robust_semantics/minmax.cc |  3 +++
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index 5cd56f3..83ae9a9 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -135,21 +135,17 @@ synchronize(const std::shared_ptr<Signal>& x, const std::shared_ptr<Signal>& y)
   auto xv = std::vector<Sample>{};
   auto yv = std::vector<Sample>{};
 
-  // Iterator to the first element where element.time <= begin_time.
-  // If the iterator begins after begin_time, get the prev (if it exists) and
-  // interpolate from it.
+  // Iterator to the first element where element.time >= begin_time.
+  // At least one of the signals has a sample at begin_time, and if the other doesn't,
+  // it is interpolated there below.
   constexpr auto comp_time = [](const Sample& a, const Sample& b) -> bool {
     return a.time < b.time;
   };
   auto i = std::lower_bound(x->begin(), x->end(), Sample{begin_time, 0.0}, comp_time);
-  if (i->time > begin_time && i != x->begin()) {
-    xv.push_back(Sample{
-        begin_time, std::prev(i)->interpolate(begin_time), std::prev(i)->derivative});
-  }
   auto j = std::lower_bound(y->begin(), y->end(), Sample{begin_time, 0.0}, comp_time);
-  if (j->time > begin_time && j != y->begin()) {
-    yv.push_back(Sample{
-        begin_time, std::prev(j)->interpolate(begin_time), std::prev(i)->derivative});
+  if (i == x->end() || j == y->end()) {
+    // There is no time range where both of them are defined.
+    return std::make_tuple(std::make_shared<Signal>(), std::make_shared<Signal>());
   }
 
   // Now, we have to track the timestamps.
diff --git a/src/robust_semantics/minmax.cc b/src/robust_semantics/minmax.cc
index adf3aea..0d7466a 100644
--- a/src/robust_semantics/minmax.cc
+++ b/src/robust_semantics/minmax.cc
@@ -90,6 +90,9 @@ compute_minmax_pair(const std::vector<SignalPtr>& xs, Compare comp, bool synchro
 
 template <typename Compare>
 SignalPtr compute_minmax_seq(const SignalPtr& x, Compare comp) {
+  if (x->empty())
+    return std::make_shared<Signal>();
+
   auto opt = x->back();
   auto z   = std::vector<Sample>{};
   z.reserve(2 * x->size());
-- 
2.43.0


From 58dbdea417e5bed112e8d87887dc36ca5e84945d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:52 +0000
Subject: [PATCH 07/21] fix: crossing points of And/Or stay strictly inside
 their segment

Rounding could place the crossing at or after the next sample, whose insertion
then threw, so computing robustness failed on ordinary data.
---
 src/robust_semantics/minmax.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/robust_semantics/minmax.cc b/src/robust_semantics/minmax.cc
index 0d7466a..ffb06f1 100644
--- a/src/robust_semantics/minmax.cc
+++ b/src/robust_semantics/minmax.cc
@@ -41,7 +41,7 @@ SignalPtr compute_minmax_pair(
     if (comp(*i, *j)) {
       if (last_chosen == Chosen::Y) {
         double intercept_time = std::prev(j)->time_intersect(*std::prev(i));
-        if (intercept_time > out->end_time() && intercept_time != i->time) {
+        if (intercept_time > out->end_time() && intercept_time < i->time) {
           out->push_back(
               Sample{intercept_time, std::prev(j)->interpolate(intercept_time)});
         }
@@ -51,7 +51,7 @@ SignalPtr compute_minmax_pair(
     } else {
       if (last_chosen == Chosen::X) {
         double intercept_time = std::prev(i)->time_intersect(*std::prev(j));
-        if (intercept_time > out->end_time() && intercept_time != j->time) {
+        if (intercept_time > out->end_time() && intercept_time < j->time) {
           out->push_back(
               Sample{intercept_time, std::prev(i)->interpolate(intercept_time)});
         }
-- 
2.43.0


From 91d93ff5b505d02c42d1e82e0714714eb221a6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:52 +0000
Subject: [PATCH 08/21] fix: Until is not satisfied when its right operand
 never holds

The recursion started from +inf and took the negated maximum of the right
operand, so (a U b) was positive whenever b was always false.
---
 src/robust_semantics/classic_robustness.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/robust_semantics/classic_robustness.cc b/src/robust_semantics/classic_robustness.cc
index d047c5a..c742ed3 100644
--- a/src/robust_semantics/classic_robustness.cc
+++ b/src/robust_semantics/classic_robustness.cc
@@ -38,14 +38,12 @@ SignalPtr compute_until(const SignalPtr& input_x, const SignalPtr& input_y) {
 
   // TODO(anand): This doesn't handle crossing signals well...
 
-  double prev      = TOP;
-  double max_right = BOTTOM;
+  double prev = BOTTOM;
 
   for (auto [i, j] = std::make_tuple(x->rbegin(), y->rbegin());
        i != x->rend() && j != y->rend();
        i++, j++) {
-    max_right = std::max(max_right, j->value);
-    prev      = std::max({j->value, std::min(i->value, prev), -max_right});
+    prev = std::max(j->value, std::min(i->value, prev));
     sigstack.push_back({i->time, prev});
   }
   std::reverse(sigstack.begin(), sigstack.end());
-- 
2.43.0


From 5d4fdffdf0355dbdeab13e702876575c789ebd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:52 +0000
Subject: [PATCH 09/21] fix: constants have a robustness over a single-instant
 trace

---
 src/robust_semantics/classic_robustness.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/robust_semantics/classic_robustness.cc b/src/robust_semantics/classic_robustness.cc
index c742ed3..6df11f1 100644
--- a/src/robust_semantics/classic_robustness.cc
+++ b/src/robust_semantics/classic_robustness.cc
@@ -104,7 +104,10 @@ SignalPtr compute_robustness(const ast::Expr& phi, const signal::Trace& trace, b
 
 SignalPtr RobustnessOp::operator()(const ast::Const e) const {
   const double val = (e.value) ? static_cast<double>(TOP) : static_cast<double>(BOTTOM);
-  auto samples     = std::vector<Sample>{{min_time, val, 0.0}, {max_time, val, 0.0}};
+  auto samples     = std::vector<Sample>{{min_time, val, 0.0}};
+  if (max_time != min_time) {
+    samples.push_back({max_time, val, 0.0});
+  }
   return std::make_shared<Signal>(samples);
 }
 
-- 
2.43.0


From e7540edd7125cb5217acdf913e97240a26a37361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 10/21] fix: (a & b) & false is false and (a | b) | true is
 true

Both built a one-operand And/Or, whose constructor throws.
---
 src/core/ast.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/core/ast.cc b/src/core/ast.cc
index dc66ac7..590783e 100644
--- a/src/core/ast.cc
+++ b/src/core/ast.cc
@@ -29,16 +29,16 @@ using utils::overloaded;
 namespace {
 
 Expr AndHelper(const AndPtr& lhs, const Expr& rhs) {
+  if (const auto c_ptr = std::get_if<Const>(&rhs); c_ptr && !c_ptr->value) {
+    return *c_ptr;
+  }
+
   std::vector<Expr> args{lhs->args};
 
   std::visit(
       overloaded{
           [&args](const auto e) { args.push_back(e); },
-          [&args](const Const e) {
-            if (!e.value) {
-              args = {Expr{e}};
-            }
-          },
+          [](const Const) {},
           [&args](const AndPtr& e) {
             args.reserve(
                 args.size() +
@@ -50,16 +50,16 @@ Expr AndHelper(const AndPtr& lhs, const Expr& rhs) {
 }
 
 Expr OrHelper(const OrPtr& lhs, const Expr& rhs) {
+  if (const auto c_ptr = std::get_if<Const>(&rhs); c_ptr && c_ptr->value) {
+    return *c_ptr;
+  }
+
   std::vector<Expr> args{lhs->args};
 
   std::visit(
       overloaded{
           [&args](const auto e) { args.push_back(e); },
-          [&args](const Const e) {
-            if (e.value) {
-              args = {Expr{e}};
-            }
-          },
+          [](const Const) {},
           [&args](const OrPtr& e) {
             args.reserve(
                 args.size() +
-- 
2.43.0


From 4003e3ccb03ee7d9bb7b7db374fb80880dcd815e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 11/21] fix: integer intervals are validated like floating
 point ones

---
 src/include/signal_tl/ast.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/include/signal_tl/ast.hpp b/src/include/signal_tl/ast.hpp
index 54de00c..f5015b6 100644
--- a/src/include/signal_tl/ast.hpp
+++ b/src/include/signal_tl/ast.hpp
@@ -156,7 +156,11 @@ struct Interval {
   Num high;
 
   Interval() : low{0.0}, high{std::numeric_limits<double>::infinity()} {};
-  Interval(unsigned long long int a, unsigned long long int b) : low{a}, high{b} {}
+  Interval(unsigned long long int a, unsigned long long int b) : low{a}, high{b} {
+    if (b <= a) {
+      throw std::invalid_argument("Interval [a,b] cannot have b <= a");
+    }
+  }
   Interval(double a, double b) : low{a}, high{b} {
     if (a < 0 || b < 0) {
       throw std::invalid_argument("Interval cannot have negative values");
-- 
2.43.0


From 8728fd3e5d28c4fe30a48dee6ff287d66f1498c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 12/21] fix: Always/Eventually respect their interval, bounded
 Until is refused

Interval::has_value() had its sense inverted, so every bounded operator was
silently evaluated as unbounded. The windowed minimum/maximum it hid did not
compute one (it returned the operand's samples): at time t, take the optimum
over [t + a, t + b], where the operand keeps its last value after its end.
---
 src/include/signal_tl/ast.hpp              |  4 +-
 src/robust_semantics/classic_robustness.cc |  8 +--
 src/robust_semantics/minmax.cc             | 61 ++++++++++------------
 3 files changed, 32 insertions(+), 41 deletions(-)

diff --git a/src/include/signal_tl/ast.hpp b/src/include/signal_tl/ast.hpp
index f5015b6..f63a1a7 100644
--- a/src/include/signal_tl/ast.hpp
+++ b/src/include/signal_tl/ast.hpp
@@ -194,13 +194,13 @@ struct Interval {
     return start_zero && end_inf;
   }
 
-  /// Check if the interval is [0, inf).
+  /// Check if the interval is anything other than [0, inf).
   ///
   /// NOTE: Purely for backwards compatibility to a version of signal_tl that
   /// dealt with intervals as `std::pair<double, double>`, and the interval was
   /// stored inside an `std::optional` field in the Temporal operators.
   [[nodiscard]] bool has_value() const {
-    return this->is_zero_to_inf();
+    return !this->is_zero_to_inf();
   }
 };
 
diff --git a/src/robust_semantics/classic_robustness.cc b/src/robust_semantics/classic_robustness.cc
index 6df11f1..b7eb397 100644
--- a/src/robust_semantics/classic_robustness.cc
+++ b/src/robust_semantics/classic_robustness.cc
@@ -170,9 +170,7 @@ SignalPtr RobustnessOp::operator()(const ast::EventuallyPtr& e) const {
   const auto [a, b] = e->interval.as_double();
   if (b - a < 0) {
     throw std::logic_error("Eventually operator: b < a in interval [a,b]");
-  } else if (b - a == 0) {
-    return y;
-  } else if (b - a >= y->end_time() - y->begin_time()) {
+  } else if (a == 0 && b >= y->end_time() - y->begin_time()) {
     return compute_max_seq(y);
   } else {
     return compute_max_seq(y, a, b);
@@ -188,9 +186,7 @@ SignalPtr RobustnessOp::operator()(const ast::AlwaysPtr& e) const {
   const auto [a, b] = e->interval.as_double();
   if (b - a < 0) {
     throw std::logic_error("Always operator: b < a in interval [a,b]");
-  } else if (b - a == 0) {
-    return y;
-  } else if (b - a >= y->end_time() - y->begin_time()) {
+  } else if (a == 0 && b >= y->end_time() - y->begin_time()) {
     return compute_min_seq(y);
   } else {
     return compute_min_seq(y, a, b);
diff --git a/src/robust_semantics/minmax.cc b/src/robust_semantics/minmax.cc
index ffb06f1..335f73e 100644
--- a/src/robust_semantics/minmax.cc
+++ b/src/robust_semantics/minmax.cc
@@ -109,42 +109,37 @@ SignalPtr compute_minmax_seq(const SignalPtr& x, Compare comp) {
 
 template <typename Compare>
 SignalPtr compute_minmax_seq(const SignalPtr& x, double a, double b, Compare comp) {
-  const auto width      = b - a;
-  const auto begin_time = x->begin_time();
-  const auto end_time   = x->end_time();
-
-  auto x_ = (a == 0)
-                ? x
-                : x->resize_shift(
-                      begin_time + width, end_time + width, x->back().value, -width);
-
-  auto z       = std::make_shared<Signal>();
-  auto samples = std::deque<Sample>{x_->begin(), x_->end()};
-  auto window  = std::deque<Sample>{};
-
-  auto i = std::begin(samples);
-  // -- Read in values in [0, width)
-  for (; i->time < x->begin_time() + width; i++) {
-    mono_wedge::mono_wedge_update(window, *i, comp);
-  }
-
-  // -- Stream in the rest of the signal.
-  for (; i != samples.end(); i++) {
-    if (i->time - a > window.front().time) {
-      // Add the sample for time M.front + a
-      i = samples.insert(
-          i,
-          Sample{
-              window.front().time + a,
-              std::prev(i)->interpolate(window.front().time + a),
-              0.0});
+  // The value of x at time t, where x keeps its last value after its end.
+  const auto value_at = [&x](double t) {
+    return (t >= x->end_time()) ? x->back().value : x->at(t).value;
+  };
+
+  auto z      = std::make_shared<Signal>();
+  auto window = std::deque<Sample>{};
+
+  auto i = x->begin();
+  for (const auto& s : *x) {
+    const double lo = s.time + a;
+    const double hi = s.time + b;
+
+    // Read in the samples up to hi, and drop those before lo.
+    for (; i != x->end() && i->time <= hi; i++) {
+      mono_wedge::mono_wedge_update(window, *i, comp);
+    }
+    while (!window.empty() && window.front().time < lo) { window.pop_front(); }
+
+    // x is linear between samples, so its optimum is at a sample in the window or at
+    // one of the ends of the window.
+    auto opt        = Sample{lo, value_at(lo)};
+    const auto last = Sample{hi, value_at(hi)};
+    opt             = comp(last, opt) ? last : opt;
+    if (!window.empty() && comp(window.front(), opt)) {
+      opt = window.front();
     }
-    mono_wedge::mono_wedge_update(window, *i, comp);
-    while (window.front().time <= i->time - a) { window.pop_front(); }
-    z->push_back(i->time, i->value);
+    z->push_back(s.time, opt.value);
   }
 
-  return z->simplify();
+  return z;
 }
 
 SignalPtr
-- 
2.43.0


From e639feebaf433204b5ba0a57181c2164400e9cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 13/21] fix: print [a, inf) of Always as inf

---
 src/include/signal_tl/fmt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/signal_tl/fmt.hpp b/src/include/signal_tl/fmt.hpp
index 31136fb..8429f55 100644
--- a/src/include/signal_tl/fmt.hpp
+++ b/src/include/signal_tl/fmt.hpp
@@ -92,7 +92,7 @@ struct fmt::formatter<signal_tl::ast::Always>
     if (e.interval.has_value()) {
       const auto [a, b] = e.interval.as_double();
       if (std::isinf(b)) {
-        return format_to(ctx.out(), "G[{}, int) {}", a, e.arg);
+        return format_to(ctx.out(), "G[{}, inf) {}", a, e.arg);
       }
       return format_to(ctx.out(), "G[{},{}] {}", a, b, e.arg);
     }
-- 
2.43.0


From 952e8b5bc70a941496ea76cf2ba9c5e212431488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 14/21] fix: parse predicates written as (op constant signal)

The comparison was read from state that had just been cleared, so every such
predicate threw bad_optional_access.
---
 src/parser/actions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/actions.hpp b/src/parser/actions.hpp
index 4db8b4b..f224d20 100644
--- a/src/parser/actions.hpp
+++ b/src/parser/actions.hpp
@@ -209,7 +209,7 @@ struct action<PredicateTerm> {
 
     if (state.predicate_type == PredicateType::TWO) {
       // For Type TWO, we need to flip the direction of the comparison
-      switch (state.comparison_type.value()) {
+      switch (comparison_type) {
         case ast::ComparisonOp::LT:
           comparison_type = ast::ComparisonOp::GT;
           break;
-- 
2.43.0


From 113a8717aeeb4acf44851e43d2babfb010ab096b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 15/21] fix: accept a parenthesized term, as the grammar allows

---
 src/parser/actions.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/actions.hpp b/src/parser/actions.hpp
index f224d20..9ef7b7f 100644
--- a/src/parser/actions.hpp
+++ b/src/parser/actions.hpp
@@ -437,6 +437,8 @@ struct action<Term> {
       // Copy the pointer to the formula with the corresponding id
       state.terms.push_back(global_state.formulas.at(state.identifiers.back()));
       state.identifiers.pop_back();
+    } else if (state.terms.size() == 1) { // And if we have a parenthesized Term
+      // The nested Term has already put its result onto the vector of terms.
     } else {
       // Otherwise, it doesn't make sense that there are no results, as this
       // means that the parser failed. This should be unreachable.
-- 
2.43.0


From ce9fae509c26a056083855dfcb964b1a926ea1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 16/21] fix: reject terms and commands with missing or surplus
 parts

(op x c op y d), (not a b), (and (not a b) c) or () were accepted, silently
dropping or misplacing terms.
---
 src/parser/grammar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/grammar.hpp b/src/parser/grammar.hpp
index 847a0b6..b90937c 100644
--- a/src/parser/grammar.hpp
+++ b/src/parser/grammar.hpp
@@ -157,7 +157,7 @@ using Expression = peg::sor<
     UntilTerm,
     Term>;
 
-using TermTail = peg::until<RParen, Expression>;
+using TermTail = peg::seq<Expression, RParen>;
 struct Term : peg::sor<peg::if_must<LParen, TermTail>, BooleanLiteral, Identifier> {};
 
 struct Assertion : peg::if_must<KwAssert, Identifier, Term> {};
@@ -189,7 +189,7 @@ struct Command : peg::must<AllowedCommands> {};
 /// We will hard code the top level commands, like `define-formula` and
 /// `assert` as that will allow us to directly reason about them. A command is
 /// essentially intrinsic to the specification language.
-using AnyCommandTail = peg::until<RParen, Command>;
+using AnyCommandTail = peg::seq<Command, RParen>;
 struct AnyCommand : peg::if_must<LParen, AnyCommandTail> {};
 
 struct StatementList : peg::seq<Skip, peg::until<peg::eof, AnyCommand, Skip>> {};
-- 
2.43.0


From 5a46bc0a35f94bdd06bb6ac151152c62e64574de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:33 +0000
Subject: [PATCH 17/21] fix: integer constants beyond long int are parsed

std::stol threw out_of_range on them, although the value ends up a double.
---
 src/parser/actions.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/actions.hpp b/src/parser/actions.hpp
index 9ef7b7f..d342ab4 100644
--- a/src/parser/actions.hpp
+++ b/src/parser/actions.hpp
@@ -127,7 +127,8 @@ template <>
 struct action<IntegerLiteral> {
   template <typename ActionInput>
   static void apply(const ActionInput& in, GlobalParserState&, ParserState& state) {
-    long int val           = std::stol(in.string());
+    // An integer may be larger than any `long int`, but it is only used as a double.
+    double val             = std::stod(in.string());
     state.primitive_result = PrimitiveState(val);
   }
 };
-- 
2.43.0


From 701fdf4c337d33f5751f362ea713eefc1df48f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:59 +0000
Subject: [PATCH 18/21] fix: simplify drops the inner samples of ramps, not
 only of plateaus

---
 src/core/signal.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index 83ae9a9..b2e33e2 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -56,12 +56,13 @@ void Signal::push_back(double time, double value) {
 }
 
 SignalPtr Signal::simplify() const {
-  auto sig = std::make_shared<Signal>();
+  auto sig  = std::make_shared<Signal>();
+  auto last = Sample{}; // Last sample kept, with its derivative in this signal.
   for (const auto& s : this->samples) {
     const auto [t, v, d] = s;
-    if ((sig->empty()) ||
-        (sig->back().interpolate(t) != v || sig->back().derivative != d)) {
+    if ((sig->empty()) || (last.interpolate(t) != v || last.derivative != d)) {
       sig->push_back(s);
+      last = s;
     }
   }
   if (this->end_time() != sig->end_time()) {
-- 
2.43.0


From 9772f9bfa5cbcf1d4b8af6750a78c23f90c085fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:59 +0000
Subject: [PATCH 19/21] fix: Signal::at rejects NaN

---
 src/core/signal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index b2e33e2..4acc0f3 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -12,7 +12,7 @@
 namespace signal_tl::signal {
 
 Sample Signal::at(double t) const {
-  if (this->empty() || this->begin_time() > t || this->end_time() < t) {
+  if (this->empty() || !(this->begin_time() <= t && t <= this->end_time())) {
     throw std::invalid_argument(
         fmt::format("Signal is undefined for given time instance {}", t));
   }
-- 
2.43.0


From dbe7d9e53171e34f8dc6723b5f8f3998ae0b5457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:59 +0000
Subject: [PATCH 20/21] fix: Interval rejects NaN bounds

---
 src/include/signal_tl/ast.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/signal_tl/ast.hpp b/src/include/signal_tl/ast.hpp
index f63a1a7..796d807 100644
--- a/src/include/signal_tl/ast.hpp
+++ b/src/include/signal_tl/ast.hpp
@@ -162,8 +162,8 @@ struct Interval {
     }
   }
   Interval(double a, double b) : low{a}, high{b} {
-    if (a < 0 || b < 0) {
-      throw std::invalid_argument("Interval cannot have negative values");
+    if (!(a >= 0 && b >= 0)) {
+      throw std::invalid_argument("Interval cannot have negative (or NaN) values");
     } else if (b <= a) {
       throw std::invalid_argument("Interval [a,b] cannot have b <= a");
     }
-- 
2.43.0


From 71f6696459f132100833295ec751223a4987b808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:12 +0000
Subject: [PATCH 21/21] fix: a signal's first sample cannot be timestamped NaN
 either

push_back compared the time with the end of the signal only, so an empty signal
took a sample timestamped NaN, which no time is before or after: the signal
could not be extended or queried any more.
---
 src/core/signal.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index 4acc0f3..4f5448f 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -2,6 +2,7 @@
 #include "signal_tl/fmt.hpp"    // IWYU pragma: keep
 
 #include <algorithm>    // for lower_bound, max
+#include <cmath>        // for isnan
 #include <fmt/format.h> // for format
 #include <iterator>     // for prev, next
 #include <memory>       // for shared_ptr, __shared_ptr_access, mak...
@@ -31,6 +32,9 @@ Sample Signal::at(double t) const {
 }
 
 void Signal::push_back(Sample sample) {
+  if (std::isnan(sample.time)) {
+    throw std::invalid_argument("Trying to append a Sample timestamped NaN.");
+  }
   if (!this->samples.empty()) {
     if (!(sample.time > this->end_time())) {
       throw std::invalid_argument(fmt::format(
-- 
2.43.0

