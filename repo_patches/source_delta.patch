From f926b7a62620602d0d8453093b46d54f88d3bf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:29 +0000
Subject: [PATCH 01/19] fix: GetJump must not truncate half of the extent to
 int

---
 include/bwsl/HyperCubicGrid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bwsl/HyperCubicGrid.hpp b/include/bwsl/HyperCubicGrid.hpp
index 14735c8..cd9d779 100644
--- a/include/bwsl/HyperCubicGrid.hpp
+++ b/include/bwsl/HyperCubicGrid.hpp
@@ -253,7 +253,7 @@ HyperCubicGrid::GetJump(size_t a, size_t b) const -> coords_t
       auto& cbi = cb[i];
       auto si = GetSize()[i];
       // half distance (integer division)
-      auto si_half = static_cast<int>(si / 2);
+      auto si_half = static_cast<long>(si / 2);
       if (cbi > si_half) {
         cbi -= si;
       }
-- 
2.43.0


From 4466f2d36bcf54198799806088dd9a80c86c9bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:08 +0000
Subject: [PATCH 02/19] fix: NaiveInteger variance used sum2 - sum*sum instead
 of sum2 - sum*sum/n

---
 include/bwsl/accumulators/NaiveIntegerAccumulator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp b/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
index c3b9632..d261cc0 100644
--- a/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
+++ b/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
@@ -129,7 +129,7 @@ NaiveInteger::Variance(bool corrected) const -> double
 
   auto ccount = corrected ? count_ - 1UL : count_;
 
-  return static_cast<double>(sum2_ - sum_ * sum_) / (count_ * ccount);
+  return ScaledVariance() / ccount;
 }
 
 inline auto
@@ -139,7 +139,7 @@ NaiveInteger::ScaledVariance() const -> double
     return std::nan("");
   }
 
-  return static_cast<double>(sum2_ - sum_ * sum_) / count_;
+  return static_cast<double>(sum2_) - Mean() * static_cast<double>(sum_);
 }
 
 inline auto
-- 
2.43.0


From e1e6f6681948cae74df0236f096dae15ec2f74df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:19 +0000
Subject: [PATCH 03/19] fix: NaiveInteger overflow checks compared the wrong
 quantities

---
 include/bwsl/accumulators/NaiveIntegerAccumulator.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp b/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
index d261cc0..46ece85 100644
--- a/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
+++ b/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
@@ -23,6 +23,7 @@
 
 // std
 #include <cmath>
+#include <cstdlib>
 #include <exception>
 #include <limits>
 
@@ -106,10 +107,12 @@ NaiveInteger::Add(long x) -> void
   if (count_ == std::numeric_limits<unsigned long>::max()) {
     throw exception::AccumulatorOverflow();
   }
-  if (std::numeric_limits<unsigned long>::max() - sum_ <= x) {
+  // protect against overflows of the sum and of the sum of the squares
+  constexpr auto lmax = std::numeric_limits<long>::max();
+  if (x < -lmax || (x > 0 ? sum_ > lmax - x : sum_ < -lmax - x)) {
     throw exception::AccumulatorOverflow();
   }
-  if (std::numeric_limits<unsigned long>::max() < sum2_ <= x * x) {
+  if (x != 0 && std::abs(x) > (lmax - sum2_) / std::abs(x)) {
     throw exception::AccumulatorOverflow();
   }
 #endif // BWSL_ACCUMULATORS_CHECKS
-- 
2.43.0


From 223e0c2be7a8b13a8b6e0c46b054e71a6404e243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:07 +0000
Subject: [PATCH 04/19] fix: RationalNum keeps its denominator positive so that
 ordering is right

---
 include/bwsl/RationalNum.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bwsl/RationalNum.hpp b/include/bwsl/RationalNum.hpp
index 439d3e7..a03602b 100644
--- a/include/bwsl/RationalNum.hpp
+++ b/include/bwsl/RationalNum.hpp
@@ -197,6 +197,10 @@ inline void
 RationalNum<T>::Simplify()
 {
   auto g = get_gcd(num_, den_);
+  if ((g < 0) != (den_ < 0)) {
+    // keep the denominator positive
+    g = -g;
+  }
   num_ = num_ / g;
   den_ = den_ / g;
 }
-- 
2.43.0


From d4e4aab6e1dfa2c9ee6090c9fe757deb4f126c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:11 +0000
Subject: [PATCH 05/19] fix: RationalNum compared with an integer must not
 truncate

---
 include/bwsl/RationalNum.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/RationalNum.hpp b/include/bwsl/RationalNum.hpp
index a03602b..1ba77b3 100644
--- a/include/bwsl/RationalNum.hpp
+++ b/include/bwsl/RationalNum.hpp
@@ -216,14 +216,14 @@ template<class G>
 inline auto
 operator<(const RationalNum<G>& lhs, const G& rhs) -> bool
 {
-  return lhs.num_ / lhs.den_ < rhs;
+  return lhs.num_ < rhs * lhs.den_;
 }
 
 template<class G>
 inline auto
 operator<(const G& lhs, const RationalNum<G>& rhs) -> bool
 {
-  return lhs < rhs.num_ / rhs.den_;
+  return lhs * rhs.den_ < rhs.num_;
 }
 
 TEMPLATEOVERLOADRELATIONAL(RationalNum<G>, RationalNum<G>, G)
-- 
2.43.0


From 23d3d217a5319afd239860a5bf5959080ea7a34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:17 +0000
Subject: [PATCH 06/19] fix: a parsed RationalNum is brought to its canonical
 form

---
 include/bwsl/RationalNum.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/bwsl/RationalNum.hpp b/include/bwsl/RationalNum.hpp
index 1ba77b3..c83c1dc 100644
--- a/include/bwsl/RationalNum.hpp
+++ b/include/bwsl/RationalNum.hpp
@@ -180,6 +180,12 @@ operator>>(std::istream& in, RationalNum<T>& rhs) -> std::istream&
     }
   }
   in >> rhs.den_;
+  if (in && rhs.den_ == 0) {
+    in.setstate(std::ios_base::failbit);
+  }
+  if (in) {
+    rhs.Simplify();
+  }
 
   return in;
 }
-- 
2.43.0


From 33fbe8177c95413ca9cc90a5754f0c327d9da72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:22 +0000
Subject: [PATCH 07/19] fix: ToString of a RationalNum did not compile

---
 include/bwsl/RationalNum.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/bwsl/RationalNum.hpp b/include/bwsl/RationalNum.hpp
index c83c1dc..7accaf3 100644
--- a/include/bwsl/RationalNum.hpp
+++ b/include/bwsl/RationalNum.hpp
@@ -342,7 +342,9 @@ template<class T>
 inline auto
 ToString(RationalNum<T> const& rhs) -> std::string
 {
-  return fmt::format("{}", rhs);
+  auto oss = std::ostringstream{};
+  oss << rhs;
+  return oss.str();
 }
 
 } // namespace bwsl
-- 
2.43.0


From b32e0e0ccc28db43cf89c2faed7cfd95f2d2dca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:49 +0000
Subject: [PATCH 08/19] fix: Bravais::GetInverseVector multiplied by the wrong
 component

---
 include/bwsl/Bravais.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bwsl/Bravais.hpp b/include/bwsl/Bravais.hpp
index 8379699..7a0350e 100644
--- a/include/bwsl/Bravais.hpp
+++ b/include/bwsl/Bravais.hpp
@@ -151,7 +151,7 @@ Bravais::GetInverseVector(realvec_t const& realspace) const
   auto p = Bravais::realvec_t(dim_, 0.0);
   for (auto i = 0UL; i < dim_; i++) {
     for (auto j = 0UL; j < dim_; j++) {
-      p[i] += realspace[i] * pivectors_[i * dim_ + j];
+      p[i] += realspace[j] * pivectors_[i * dim_ + j];
     }
   }
   return p;
-- 
2.43.0


From e57228868bc85912b61d9656eeb27e6027bc178e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:17 +0000
Subject: [PATCH 09/19] fix: HistAccumulator::GetResults(idx) divided later
 bins by the already normalised one

---
 include/bwsl/HistAccumulator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bwsl/HistAccumulator.hpp b/include/bwsl/HistAccumulator.hpp
index 7b12736..8a17d06 100644
--- a/include/bwsl/HistAccumulator.hpp
+++ b/include/bwsl/HistAccumulator.hpp
@@ -187,8 +187,9 @@ inline auto
 HistAccumulator::GetResults(size_t idx) const -> std::vector<double>
 {
   auto r = GetResults();
+  auto const norm = r[idx];
   for (auto& v : r) {
-    v /= r[idx];
+    v /= norm;
   }
   return r;
 }
-- 
2.43.0


From dd971dcafe38e4177e91beda5e21399bf67e43b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:15 +0000
Subject: [PATCH 10/19] fix: bwsl::upper_bound does not compile or recurses
 without end, and skips equal elements

---
 include/bwsl/MathUtils.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/bwsl/MathUtils.hpp b/include/bwsl/MathUtils.hpp
index dcb4dcb..718a669 100644
--- a/include/bwsl/MathUtils.hpp
+++ b/include/bwsl/MathUtils.hpp
@@ -354,9 +354,14 @@ inline auto
 upper_bound(ForwardIt first, ForwardIt last, const T& value) -> ForwardIt
 {
   auto count = std::distance(first, last);
+  if (count == 0) {
+    return last;
+  }
+
+  // the search interval is [it, to], both ends included
   auto it = first;
   auto to = it;
-  std::advance(to, count - 1);
+  std::advance(to, --count);
 
   while (count > 10000) {
     auto itval = *it;
@@ -365,7 +370,7 @@ upper_bound(ForwardIt first, ForwardIt last, const T& value) -> ForwardIt
       return it;
     }
     if (!(itval < value)) { // value <= it (so only if they are equal)
-      return ++it;
+      break;                // there may be more elements equal to value
     }
 
     // check if the value is outside the upper bound of the search interval
@@ -385,7 +390,7 @@ upper_bound(ForwardIt first, ForwardIt last, const T& value) -> ForwardIt
     }
     count = std::distance(it, to);
   }
-  return upper_bound(it, ++to, value);
+  return std::upper_bound(it, ++to, value);
 }
 
 /// Greater common denominator
-- 
2.43.0


From d9e407a5de34bceb10e99635cf6a1e037d980782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:50 +0000
Subject: [PATCH 11/19] fix: comparing LinSpaces (and so iterating over one)
 did not link

---
 include/bwsl/LinSpace.hpp | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/include/bwsl/LinSpace.hpp b/include/bwsl/LinSpace.hpp
index 59b9d73..0a96f03 100644
--- a/include/bwsl/LinSpace.hpp
+++ b/include/bwsl/LinSpace.hpp
@@ -74,10 +74,16 @@ private:
   unsigned long step_{ 0 };
 
   /// Compare two LinSpaces and check for equality
-  friend auto operator==(const LinSpace<T>& a, const LinSpace<T>& b) -> bool;
+  friend auto operator==(const LinSpace<T>& a, const LinSpace<T>& b) -> bool
+  {
+    return a.step_ == b.step_;
+  };
 
   /// Compare two LinSpaces and check for inequality
-  friend auto operator!=(const LinSpace<T>& a, const LinSpace<T>& b) -> bool;
+  friend auto operator!=(const LinSpace<T>& a, const LinSpace<T>& b) -> bool
+  {
+    return !(a == b);
+  }
 }; // class LinSpace
 
 template<typename T>
@@ -149,20 +155,6 @@ LinSpace<T>::Collect(unsigned long n) -> std::vector<T>
   return retval;
 }
 
-template<typename T>
-auto
-operator==(const LinSpace<T>& a, const LinSpace<T>& b) -> bool
-{
-  return a.step_ == b.step_;
-};
-
-template<typename T>
-auto
-operator!=(const LinSpace<T>& a, const LinSpace<T>& b) -> bool
-{
-  return !(a == b);
-}
-
 } // namespace bwsl
 
 // vim: set ts=2 sts=2 et sw=2 tw=80: //
-- 
2.43.0


From 2634986426d5f74ce90d75dd1cfa444be4a32c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:11 +0000
Subject: [PATCH 12/19] fix: strict comparisons with an Approx were declared
 but not defined

---
 include/bwsl/Approx.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/bwsl/Approx.hpp b/include/bwsl/Approx.hpp
index b9e9dbb..d9c6abe 100644
--- a/include/bwsl/Approx.hpp
+++ b/include/bwsl/Approx.hpp
@@ -131,6 +131,30 @@ operator>=(Approx const& lhs, double rhs) -> bool
   return lhs.value_ > rhs || lhs == rhs;
 }
 
+inline auto
+operator<(Approx lhs, double const& rhs) -> bool
+{
+  return !(lhs >= rhs);
+}
+
+inline auto
+operator<(double lhs, Approx const& rhs) -> bool
+{
+  return !(lhs >= rhs);
+}
+
+inline auto
+operator>(Approx lhs, double const& rhs) -> bool
+{
+  return !(lhs <= rhs);
+}
+
+inline auto
+operator>(double lhs, Approx const& rhs) -> bool
+{
+  return !(lhs <= rhs);
+}
+
 inline Approx::Approx(double val)
   : value_(static_cast<double>(val))
 {
-- 
2.43.0


From 14891e95c006ba58e38a687a44fd2d0251677497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:56 +0000
Subject: [PATCH 13/19] fix: distances and vectors between the sites of an open
 lattice read out of bounds

---
 include/bwsl/Lattice.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/bwsl/Lattice.hpp b/include/bwsl/Lattice.hpp
index 38b81f3..0308a0d 100644
--- a/include/bwsl/Lattice.hpp
+++ b/include/bwsl/Lattice.hpp
@@ -214,6 +214,10 @@ inline auto
 Lattice::GetDistance(size_t a, size_t b) const -> double
 {
   assert(IndexIsValid(a) && IndexIsValid(b));
+  // without translation invariance there is no site seen from another one
+  if (HasOpenBoundaries()) {
+    return l2norm(GetVector(a, b));
+  }
   auto s = GetMappedSite(a, b);
   return distance_[s];
 }
@@ -222,6 +226,11 @@ inline auto
 Lattice::GetVector(size_t a, size_t b) const -> realvec_t
 {
   assert(IndexIsValid(a) && IndexIsValid(b));
+  // without translation invariance there is no site seen from another one
+  if (HasOpenBoundaries()) {
+    auto vec = position_[b];
+    return subtract_into(vec, position_[a]);
+  }
   auto s = GetMappedSite(a, b);
   return vectors_[s];
 }
-- 
2.43.0


From df80c299a6e2394fe67cb096c63f9f6948554fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:05 +0000
Subject: [PATCH 14/19] fix: the momenta of non-orthogonal lattices of unequal
 extents were not allowed momenta

---
 include/bwsl/Lattice.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/bwsl/Lattice.hpp b/include/bwsl/Lattice.hpp
index 0308a0d..608a382 100644
--- a/include/bwsl/Lattice.hpp
+++ b/include/bwsl/Lattice.hpp
@@ -382,9 +382,17 @@ Lattice::ComputeMomenta(Bravais const& bravais) const
     for (auto k = 0UL; k < ci.size(); k++) {
       ci[k] -= GetSize()[k] / 2UL;
     }
-    auto kappa = bravais.GetReciprocalSpace(ci);
-    for (auto k = 0UL; k < kappa.size(); k++) {
-      kappa[k] /= GetSize()[k];
+    // each coordinate counts in units of its own reciprocal vector over the
+    // extent of that direction
+    auto kappa = realvec_t(GetDim(), 0.0);
+    for (auto j = 0UL; j < GetDim(); j++) {
+      auto unit = coords_t(GetDim(), 0);
+      unit[j] = 1;
+      auto const recip = bravais.GetReciprocalSpace(unit);
+      for (auto k = 0UL; k < GetDim(); k++) {
+        kappa[k] += static_cast<double>(ci[j]) * recip[k] /
+                    static_cast<double>(GetSize()[j]);
+      }
     }
     p.push_back(kappa);
   }
-- 
2.43.0


From 0e61f0d3da8bee1be81d94fe69cdb58c9590b68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:34 +0000
Subject: [PATCH 15/19] fix: saving the momenta of an open lattice read out of
 bounds

---
 include/bwsl/Lattice.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bwsl/Lattice.hpp b/include/bwsl/Lattice.hpp
index 608a382..fce8ddf 100644
--- a/include/bwsl/Lattice.hpp
+++ b/include/bwsl/Lattice.hpp
@@ -498,7 +498,7 @@ Lattice::SaveMomenta(std::string const& fname) const
   }
   fmt::print(out, "\n");
 
-  for (auto i = 0UL; i < GetNumSites(); i++) {
+  for (auto i = 0UL; i < momenta_.size(); i++) {
     fmt::print(out, "{}", i);
     for (auto const& k : momenta_[i]) {
       fmt::print(out, ",{}", k);
-- 
2.43.0


From 2569d73f68405d907746738a1e24125e1f16749b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:57 +0000
Subject: [PATCH 16/19] fix: a failed reading of a RationalNum left it changed,
 possibly with denominator zero

---
 include/bwsl/RationalNum.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/bwsl/RationalNum.hpp b/include/bwsl/RationalNum.hpp
index 7accaf3..1fbd36f 100644
--- a/include/bwsl/RationalNum.hpp
+++ b/include/bwsl/RationalNum.hpp
@@ -170,8 +170,10 @@ template<class T>
 inline auto
 operator>>(std::istream& in, RationalNum<T>& rhs) -> std::istream&
 {
+  auto num = T{ 0 };
+  auto den = T{ 1 };
   auto sep = char{};
-  in >> rhs.num_;
+  in >> num;
   for (auto i = 0UL; i < 2UL; i++) {
     in >> sep;
     if (sep != '/') {
@@ -179,12 +181,12 @@ operator>>(std::istream& in, RationalNum<T>& rhs) -> std::istream&
       return in;
     }
   }
-  in >> rhs.den_;
-  if (in && rhs.den_ == 0) {
+  in >> den;
+  if (in && den == 0) {
     in.setstate(std::ios_base::failbit);
   }
   if (in) {
-    rhs.Simplify();
+    rhs = RationalNum<T>(num, den);
   }
 
   return in;
-- 
2.43.0


From 005850ddb986a50f39091b1133e784eff32af8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:10 +0000
Subject: [PATCH 17/19] fix: printing an ObservableGroup without observables
 read past the end

---
 include/bwsl/ObservableGroup.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/bwsl/ObservableGroup.hpp b/include/bwsl/ObservableGroup.hpp
index 5bee924..907fae2 100644
--- a/include/bwsl/ObservableGroup.hpp
+++ b/include/bwsl/ObservableGroup.hpp
@@ -119,6 +119,10 @@ ObservableGroup<Index_t>::PrintHeaders() const
 {
   auto out = std::ofstream(output_file_.c_str(), std::ios::trunc);
 
+  if (accumulator_.empty()) {
+    return;
+  }
+
   auto it = accumulator_.begin();
   fmt::print(out, "{}", it->first);
   while (++it != accumulator_.end()) {
@@ -133,6 +137,11 @@ inline void
 ObservableGroup<Index_t>::PrintAndReset(size_t precision)
 {
   auto out = std::ofstream(output_file_.c_str(), std::ios::app);
+
+  if (accumulator_.empty()) {
+    return;
+  }
+
   auto it = accumulator_.begin();
   auto count = it->second.Count();
   fmt::print(out, "{:.{}e}", it->second.Mean(), precision);
-- 
2.43.0


From 276222a3b5c36020c5885c57f228214987b69495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:02 +0000
Subject: [PATCH 18/19] fix: EnumString: what() returned a pointer into a
 destroyed string

---
 include/bwsl/EnumString.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/bwsl/EnumString.hpp b/include/bwsl/EnumString.hpp
index cdd1f0d..8c54075 100644
--- a/include/bwsl/EnumString.hpp
+++ b/include/bwsl/EnumString.hpp
@@ -66,20 +66,18 @@
   {                                                                            \
   public:                                                                      \
     EnumStringConversionFailed_##name(std::string const& value)                \
-      : value_(value)                                                          \
+      : message_(std::string("Unknown correspondance of ") + value +           \
+                 std::string(" for enum ") + BOOST_PP_STRINGIZE(name))         \
     {                                                                          \
     }                                                                          \
                                                                                \
     const char* what() const throw()                                           \
     {                                                                          \
-      auto s = std::string("Unknown correspondance of ") + value_ +            \
-               std::string(" for enum ") + name_;                              \
-      return s.c_str();                                                        \
+      return message_.c_str();                                                 \
     }                                                                          \
                                                                                \
   private:                                                                     \
-    const std::string name_{ BOOST_PP_STRINGIZE(name) };                       \
-    std::string value_{ "" };                                                  \
+    std::string message_;                                                      \
   };                                                                           \
                                                                                \
   inline std::string ToString(name v)                                          \
-- 
2.43.0


From b4c63ad037e39ec5db2cb8860decb9d15029a1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:43 +0000
Subject: [PATCH 19/19] fix: FileUtils: compare_files could not be included by
 several sources of a program

---
 include/bwsl/FileUtils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bwsl/FileUtils.hpp b/include/bwsl/FileUtils.hpp
index 9964112..3e2fe01 100644
--- a/include/bwsl/FileUtils.hpp
+++ b/include/bwsl/FileUtils.hpp
@@ -25,7 +25,7 @@ namespace bwsl {
 /// This code is based on this answer
 /// http://stackoverflow.com/a/37575457/4477378
 ///
-auto
+inline auto
 compare_files(const std::string& p1, const std::string& p2) -> bool
 {
   std::ifstream f1(p1, std::ifstream::binary | std::ifstream::ate);
-- 
2.43.0

