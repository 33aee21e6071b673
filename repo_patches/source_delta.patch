From 2b2ddd2ad8816d403b4d203a083af40ed4d1a186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:56 +0000
Subject: [PATCH 01/31] fix: do not truncate half of the grid extent to int in
 GetJump

---
 include/bwsl/HyperCubicGrid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bwsl/HyperCubicGrid.hpp b/include/bwsl/HyperCubicGrid.hpp
index 14735c8..cd9d779 100644
--- a/include/bwsl/HyperCubicGrid.hpp
+++ b/include/bwsl/HyperCubicGrid.hpp
@@ -253,7 +253,7 @@ HyperCubicGrid::GetJump(size_t a, size_t b) const -> coords_t
       auto& cbi = cb[i];
       auto si = GetSize()[i];
       // half distance (integer division)
-      auto si_half = static_cast<int>(si / 2);
+      auto si_half = static_cast<long>(si / 2);
       if (cbi > si_half) {
         cbi -= si;
       }
-- 
2.43.0


From d768bb2bc8aa953b5c05ddce397b84336818d328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:56 +0000
Subject: [PATCH 02/31] fix: leave coordinates untouched in
 Lattice::EnforceBoundaries with open boundaries

---
 include/bwsl/Lattice.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/bwsl/Lattice.hpp b/include/bwsl/Lattice.hpp
index 38b81f3..cc66603 100644
--- a/include/bwsl/Lattice.hpp
+++ b/include/bwsl/Lattice.hpp
@@ -199,6 +199,11 @@ inline Lattice::Lattice(Bravais const& bravais,
 inline void
 Lattice::EnforceBoundaries(coords_t& coords) const
 {
+  // with open boundaries there is nothing to enforce
+  if (HasOpenBoundaries()) {
+    return;
+  }
+
   for (auto i = 0UL; i < GetDim(); i++) {
     auto s = GetSize()[i];
     while (coords[i] < 0) {
-- 
2.43.0


From 1bf99cfa85381cced8bfbc99201c857897f5ed65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:33 +0000
Subject: [PATCH 03/31] fix: use all the components in
 Bravais::GetInverseVector

---
 include/bwsl/Bravais.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bwsl/Bravais.hpp b/include/bwsl/Bravais.hpp
index 8379699..7a0350e 100644
--- a/include/bwsl/Bravais.hpp
+++ b/include/bwsl/Bravais.hpp
@@ -151,7 +151,7 @@ Bravais::GetInverseVector(realvec_t const& realspace) const
   auto p = Bravais::realvec_t(dim_, 0.0);
   for (auto i = 0UL; i < dim_; i++) {
     for (auto j = 0UL; j < dim_; j++) {
-      p[i] += realspace[i] * pivectors_[i * dim_ + j];
+      p[i] += realspace[j] * pivectors_[i * dim_ + j];
     }
   }
   return p;
-- 
2.43.0


From e3dc94e1e33b126034b52c5c27bd4b9ae8211855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:33 +0000
Subject: [PATCH 04/31] fix: vectors and distances between any two sites with
 open boundaries

---
 include/bwsl/Lattice.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/bwsl/Lattice.hpp b/include/bwsl/Lattice.hpp
index cc66603..f5b78a2 100644
--- a/include/bwsl/Lattice.hpp
+++ b/include/bwsl/Lattice.hpp
@@ -219,6 +219,9 @@ inline auto
 Lattice::GetDistance(size_t a, size_t b) const -> double
 {
   assert(IndexIsValid(a) && IndexIsValid(b));
+  if (HasOpenBoundaries()) {
+    return l2norm(GetVector(a, b));
+  }
   auto s = GetMappedSite(a, b);
   return distance_[s];
 }
@@ -227,6 +230,12 @@ inline auto
 Lattice::GetVector(size_t a, size_t b) const -> realvec_t
 {
   assert(IndexIsValid(a) && IndexIsValid(b));
+  // with open boundaries there is no translation mapping a to the first site
+  if (HasOpenBoundaries()) {
+    auto v = position_[b];
+    subtract_into(v, position_[a]);
+    return v;
+  }
   auto s = GetMappedSite(a, b);
   return vectors_[s];
 }
-- 
2.43.0


From 914118011758279ce9d319291b0b768e263276c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:33 +0000
Subject: [PATCH 05/31] fix: allowed momenta of lattices with non-orthogonal
 primitive vectors

---
 include/bwsl/Lattice.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/bwsl/Lattice.hpp b/include/bwsl/Lattice.hpp
index f5b78a2..9e2251c 100644
--- a/include/bwsl/Lattice.hpp
+++ b/include/bwsl/Lattice.hpp
@@ -387,9 +387,15 @@ Lattice::ComputeMomenta(Bravais const& bravais) const
     for (auto k = 0UL; k < ci.size(); k++) {
       ci[k] -= GetSize()[k] / 2UL;
     }
-    auto kappa = bravais.GetReciprocalSpace(ci);
-    for (auto k = 0UL; k < kappa.size(); k++) {
-      kappa[k] /= GetSize()[k];
+    // sum of the fractions of the reciprocal primitive vectors
+    auto kappa = realvec_t(GetDim(), 0.0);
+    for (auto k = 0UL; k < ci.size(); k++) {
+      auto ck = coords_t(GetDim(), 0L);
+      ck[k] = ci[k];
+      auto bk = bravais.GetReciprocalSpace(ck);
+      for (auto q = 0UL; q < GetDim(); q++) {
+        kappa[q] += bk[q] / GetSize()[k];
+      }
     }
     p.push_back(kappa);
   }
-- 
2.43.0


From 3af04acf4dc62f04aaefcf98414cc9477d149c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:33 +0000
Subject: [PATCH 06/31] fix: do not read momenta of open lattices in
 SaveMomenta

---
 include/bwsl/Lattice.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bwsl/Lattice.hpp b/include/bwsl/Lattice.hpp
index 9e2251c..5de74cf 100644
--- a/include/bwsl/Lattice.hpp
+++ b/include/bwsl/Lattice.hpp
@@ -501,7 +501,8 @@ Lattice::SaveMomenta(std::string const& fname) const
   }
   fmt::print(out, "\n");
 
-  for (auto i = 0UL; i < GetNumSites(); i++) {
+  // with open boundary conditions there are no momenta
+  for (auto i = 0UL; i < momenta_.size(); i++) {
     fmt::print(out, "{}", i);
     for (auto const& k : momenta_[i]) {
       fmt::print(out, ",{}", k);
-- 
2.43.0


From 654382dac02e63bf74bc6e55f82b823bb509abd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:20 +0000
Subject: [PATCH 07/31] fix: find the closest image on elongated and skewed
 closed lattices

---
 include/bwsl/Lattice.hpp | 45 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/include/bwsl/Lattice.hpp b/include/bwsl/Lattice.hpp
index 5de74cf..c30f467 100644
--- a/include/bwsl/Lattice.hpp
+++ b/include/bwsl/Lattice.hpp
@@ -315,6 +315,35 @@ Lattice::ComputeVectors(Bravais const& bravais) const
   const auto nimg = accumulate_product(imgsize);
 
   const auto c0 = GetCoordinates(0UL);
+
+  // Periods of the lattice. Elongated or skewed lattices are described by
+  // shorter periods, so that the shortest vectors can be found by moving only
+  // across first shells of periodic images.
+  auto periods = std::vector<coords_t>(GetDim(), c0);
+  for (auto m = 0UL; m < GetDim(); m++) {
+    periods[m][m] = static_cast<long>(GetSize()[m]);
+  }
+  auto reduced = HasOpenBoundaries();
+  while (!reduced) {
+    reduced = true;
+    for (auto m = 0UL; m < GetDim(); m++) {
+      for (auto k = 0UL; k < nimg; k++) {
+        auto img = index_to_array<coords_t, gridsize_t>(k, imgsize);
+        auto pm = periods[m];
+        for (auto q = 0UL; q < GetDim(); q++) {
+          for (auto r = 0UL; q != m && r < GetDim(); r++) {
+            pm[r] += (img[q] - 1) * periods[q][r];
+          }
+        }
+        if (bravais.GetDistance(c0, pm) <
+            (1.0 - 1e-12) * bravais.GetDistance(c0, periods[m])) {
+          periods[m] = pm;
+          reduced = false;
+        }
+      }
+    }
+  }
+
   for (auto site = 0UL; site < GetNumSites(); site++) {
     auto cs = GetCoordinates(site);
 
@@ -322,19 +351,27 @@ Lattice::ComputeVectors(Bravais const& bravais) const
     auto [mindist, minvec] = bravais.GetDistanceVector(c0, cs);
 
     // search for the minimum distance across the first shell of
-    // periodic images if we are with closed boundary condition
-    if (HasClosedBoundaries()) {
+    // periodic images if we are with closed boundary condition,
+    // starting again from the closest image until there is no closer one
+    auto closer = HasClosedBoundaries();
+    while (closer) {
+      closer = false;
+      const auto center = coords_t(cs);
       for (auto k = 0UL; k < nimg; k++) {
         auto img = index_to_array<coords_t, gridsize_t>(k, imgsize);
-        auto csm = coords_t(cs);
+        auto csm = coords_t(center);
         for (auto m = 0UL; m < GetDim(); m++) {
-          csm[m] += (img[m] - 1) * GetSize()[m];
+          for (auto r = 0UL; r < GetDim(); r++) {
+            csm[r] += (img[m] - 1) * periods[m][r];
+          }
         }
         auto [dist, vec] = bravais.GetDistanceVector(c0, csm);
 
         if (dist < mindist) {
           mindist = dist;
           minvec = vec;
+          cs = csm;
+          closer = true;
         }
       }
     }
-- 
2.43.0


From e924fd2bbe3e0badf71bd88350fae508e5be48b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:15 +0000
Subject: [PATCH 08/31] fix: variance of the integer accumulator

---
 include/bwsl/accumulators/NaiveIntegerAccumulator.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp b/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
index c3b9632..c43a170 100644
--- a/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
+++ b/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
@@ -129,7 +129,8 @@ NaiveInteger::Variance(bool corrected) const -> double
 
   auto ccount = corrected ? count_ - 1UL : count_;
 
-  return static_cast<double>(sum2_ - sum_ * sum_) / (count_ * ccount);
+  return static_cast<double>(count_ * sum2_ - sum_ * sum_) /
+         (static_cast<double>(count_) * ccount);
 }
 
 inline auto
@@ -139,7 +140,7 @@ NaiveInteger::ScaledVariance() const -> double
     return std::nan("");
   }
 
-  return static_cast<double>(sum2_ - sum_ * sum_) / count_;
+  return static_cast<double>(count_ * sum2_ - sum_ * sum_) / count_;
 }
 
 inline auto
-- 
2.43.0


From d5b97c7230dc1732e6288073d283c16afb1d9c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:15 +0000
Subject: [PATCH 09/31] fix: overflow checks of the integer accumulator

---
 include/bwsl/accumulators/NaiveIntegerAccumulator.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp b/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
index c43a170..2e421a3 100644
--- a/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
+++ b/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
@@ -106,10 +106,14 @@ NaiveInteger::Add(long x) -> void
   if (count_ == std::numeric_limits<unsigned long>::max()) {
     throw exception::AccumulatorOverflow();
   }
-  if (std::numeric_limits<unsigned long>::max() - sum_ <= x) {
+  if ((x > 0 && sum_ > std::numeric_limits<long>::max() - x) ||
+      (x < 0 && sum_ < std::numeric_limits<long>::min() - x)) {
     throw exception::AccumulatorOverflow();
   }
-  if (std::numeric_limits<unsigned long>::max() < sum2_ <= x * x) {
+  auto const absx = x < 0 ? 0UL - static_cast<unsigned long>(x)
+                          : static_cast<unsigned long>(x);
+  if (absx != 0UL &&
+      absx > (std::numeric_limits<long>::max() - sum2_) / absx) {
     throw exception::AccumulatorOverflow();
   }
 #endif // BWSL_ACCUMULATORS_CHECKS
-- 
2.43.0


From 52a9b8d68bc707ea964042d53c4bd4d16b7c01da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:39 +0000
Subject: [PATCH 10/31] fix: divide all the bins by the same result in
 HistAccumulator::GetResults

---
 include/bwsl/HistAccumulator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bwsl/HistAccumulator.hpp b/include/bwsl/HistAccumulator.hpp
index 7b12736..8a17d06 100644
--- a/include/bwsl/HistAccumulator.hpp
+++ b/include/bwsl/HistAccumulator.hpp
@@ -187,8 +187,9 @@ inline auto
 HistAccumulator::GetResults(size_t idx) const -> std::vector<double>
 {
   auto r = GetResults();
+  auto const norm = r[idx];
   for (auto& v : r) {
-    v /= r[idx];
+    v /= norm;
   }
   return r;
 }
-- 
2.43.0


From 419255f58abcbea730162b180e7d56680e4a54e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:39 +0000
Subject: [PATCH 11/31] fix: do not truncate the seed given to dumpmt

---
 applications/dumpmt.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/applications/dumpmt.cpp b/applications/dumpmt.cpp
index 3a38199..4f59985 100644
--- a/applications/dumpmt.cpp
+++ b/applications/dumpmt.cpp
@@ -14,6 +14,7 @@
 //===---------------------------------------------------------------------===//
 
 // std
+#include <cstdlib>
 #include <fstream>
 #include <iostream>
 #include <random>
@@ -25,7 +26,7 @@ main (int ac, char **av)
     return EXIT_FAILURE;
   }
 
-  auto seed = static_cast<unsigned long>(atoi(av[1]));
+  auto seed = std::strtoul(av[1], nullptr, 10);
 
   auto rng = std::mt19937_64{seed};
 
-- 
2.43.0


From d498e7c06f69f474cb592858a0a818c8bf72137b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:43 +0000
Subject: [PATCH 12/31] fix: ToString of rational numbers does not compile with
 recent fmt

---
 include/bwsl/RationalNum.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/bwsl/RationalNum.hpp b/include/bwsl/RationalNum.hpp
index 439d3e7..47adf82 100644
--- a/include/bwsl/RationalNum.hpp
+++ b/include/bwsl/RationalNum.hpp
@@ -332,7 +332,9 @@ template<class T>
 inline auto
 ToString(RationalNum<T> const& rhs) -> std::string
 {
-  return fmt::format("{}", rhs);
+  auto oss = std::ostringstream{};
+  oss << rhs;
+  return oss.str();
 }
 
 } // namespace bwsl
-- 
2.43.0


From 474249ff754796b31b91b0144be5966a74c9cba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:47 +0000
Subject: [PATCH 13/31] fix: keep the denominator of rational numbers positive

---
 include/bwsl/RationalNum.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bwsl/RationalNum.hpp b/include/bwsl/RationalNum.hpp
index 47adf82..21e7b63 100644
--- a/include/bwsl/RationalNum.hpp
+++ b/include/bwsl/RationalNum.hpp
@@ -197,6 +197,10 @@ inline void
 RationalNum<T>::Simplify()
 {
   auto g = get_gcd(num_, den_);
+  // keep the denominator positive
+  if ((den_ < 0) != (g < 0)) {
+    g = -g;
+  }
   num_ = num_ / g;
   den_ = den_ / g;
 }
-- 
2.43.0


From 62bd17aecc19c86af3b06995bdfe266396479fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:47 +0000
Subject: [PATCH 14/31] fix: do not truncate rational numbers when comparing
 them to integers

---
 include/bwsl/RationalNum.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/RationalNum.hpp b/include/bwsl/RationalNum.hpp
index 21e7b63..e863a86 100644
--- a/include/bwsl/RationalNum.hpp
+++ b/include/bwsl/RationalNum.hpp
@@ -216,14 +216,14 @@ template<class G>
 inline auto
 operator<(const RationalNum<G>& lhs, const G& rhs) -> bool
 {
-  return lhs.num_ / lhs.den_ < rhs;
+  return lhs.num_ < rhs * lhs.den_;
 }
 
 template<class G>
 inline auto
 operator<(const G& lhs, const RationalNum<G>& rhs) -> bool
 {
-  return lhs < rhs.num_ / rhs.den_;
+  return lhs * rhs.den_ < rhs.num_;
 }
 
 TEMPLATEOVERLOADRELATIONAL(RationalNum<G>, RationalNum<G>, G)
-- 
2.43.0


From f2ec41e11af696c39c03631f55debde46520eb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:47 +0000
Subject: [PATCH 15/31] fix: reject malformed rational numbers and simplify the
 ones read

---
 include/bwsl/RationalNum.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/RationalNum.hpp b/include/bwsl/RationalNum.hpp
index e863a86..7c0b6e6 100644
--- a/include/bwsl/RationalNum.hpp
+++ b/include/bwsl/RationalNum.hpp
@@ -24,6 +24,7 @@
 
 // std
 #include <iostream>
+#include <limits>
 #include <sstream>
 
 namespace bwsl {
@@ -170,8 +171,10 @@ template<class T>
 inline auto
 operator>>(std::istream& in, RationalNum<T>& rhs) -> std::istream&
 {
+  auto num = T{};
+  auto den = T{};
   auto sep = char{};
-  in >> rhs.num_;
+  in >> num;
   for (auto i = 0UL; i < 2UL; i++) {
     in >> sep;
     if (sep != '/') {
@@ -179,7 +182,18 @@ operator>>(std::istream& in, RationalNum<T>& rhs) -> std::istream&
       return in;
     }
   }
-  in >> rhs.den_;
+  in >> den;
+  if (in.fail()) {
+    return in;
+  }
+
+  // the denominator cannot be zero and must be representable once made positive
+  constexpr auto lowest = std::numeric_limits<T>::min();
+  if (den == 0 || (den < 0 && (num == lowest || den == lowest))) {
+    in.setstate(std::ios_base::failbit);
+    return in;
+  }
+  rhs = RationalNum<T>(num, den);
 
   return in;
 }
-- 
2.43.0


From 4781e6f7f4f79c063c0d2e0c49d3cb67c0fffdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:11 +0000
Subject: [PATCH 16/31] fix: call the binary search of the standard library in
 upper_bound

---
 include/bwsl/MathUtils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bwsl/MathUtils.hpp b/include/bwsl/MathUtils.hpp
index dcb4dcb..a6259d3 100644
--- a/include/bwsl/MathUtils.hpp
+++ b/include/bwsl/MathUtils.hpp
@@ -385,7 +385,7 @@ upper_bound(ForwardIt first, ForwardIt last, const T& value) -> ForwardIt
     }
     count = std::distance(it, to);
   }
-  return upper_bound(it, ++to, value);
+  return std::upper_bound(it, ++to, value);
 }
 
 /// Greater common denominator
-- 
2.43.0


From 1ea75f9885f3ccba7b34278520587077c97c5432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:18 +0000
Subject: [PATCH 17/31] fix: stay inside the sequence in upper_bound

---
 include/bwsl/MathUtils.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/MathUtils.hpp b/include/bwsl/MathUtils.hpp
index a6259d3..ba579e2 100644
--- a/include/bwsl/MathUtils.hpp
+++ b/include/bwsl/MathUtils.hpp
@@ -353,10 +353,14 @@ template<class ForwardIt, class T>
 inline auto
 upper_bound(ForwardIt first, ForwardIt last, const T& value) -> ForwardIt
 {
-  auto count = std::distance(first, last);
+  if (first == last) {
+    return last;
+  }
+
   auto it = first;
   auto to = it;
-  std::advance(to, count - 1);
+  std::advance(to, std::distance(first, last) - 1);
+  auto count = std::distance(it, to);
 
   while (count > 10000) {
     auto itval = *it;
-- 
2.43.0


From 486d5ab1fa4b781cd8d1462e8c27bc7543340ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:24 +0000
Subject: [PATCH 18/31] fix: skip all the elements equal to the value in
 upper_bound

---
 include/bwsl/MathUtils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bwsl/MathUtils.hpp b/include/bwsl/MathUtils.hpp
index ba579e2..47cde84 100644
--- a/include/bwsl/MathUtils.hpp
+++ b/include/bwsl/MathUtils.hpp
@@ -369,7 +369,7 @@ upper_bound(ForwardIt first, ForwardIt last, const T& value) -> ForwardIt
       return it;
     }
     if (!(itval < value)) { // value <= it (so only if they are equal)
-      return ++it;
+      return std::upper_bound(it, ++to, value);
     }
 
     // check if the value is outside the upper bound of the search interval
-- 
2.43.0


From 326f44cd73383d482d9c2090d4670a091020f39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:43 +0000
Subject: [PATCH 19/31] fix: never choose past the last element with a non-zero
 probability

---
 include/bwsl/MathUtils.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/bwsl/MathUtils.hpp b/include/bwsl/MathUtils.hpp
index 47cde84..901f097 100644
--- a/include/bwsl/MathUtils.hpp
+++ b/include/bwsl/MathUtils.hpp
@@ -205,8 +205,10 @@ choose_between(const T& probs, G& rng) -> SizeType
                                                                comul.back());
   auto rnd = udist(rng);
 
-  typename T::iterator choice =
-    std::upper_bound(comul.begin(), comul.end(), rnd);
+  // because of rounding the distribution can return its upper bound
+  auto last = std::lower_bound(comul.begin(), comul.end(), comul.back());
+
+  typename T::iterator choice = std::upper_bound(comul.begin(), last, rnd);
 
   return static_cast<SizeType>(std::distance(comul.begin(), choice));
 }
@@ -222,8 +224,11 @@ choose_between_psums(const T& comul, G& rng) -> SizeType
                                                                comul.back());
   auto rnd = udist(rng);
 
+  // because of rounding the distribution can return its upper bound
+  auto last = std::lower_bound(comul.cbegin(), comul.cend(), comul.back());
+
   typename T::const_iterator choice =
-    std::upper_bound(comul.cbegin(), comul.cend(), rnd);
+    std::upper_bound(comul.cbegin(), last, rnd);
 
   return static_cast<SizeType>(std::distance(comul.cbegin(), choice));
 }
-- 
2.43.0


From 5e5c0b35de1cb1108c408ac05bd027272cbec082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:08 +0000
Subject: [PATCH 20/31] fix: overflow of representable binomial coefficients

---
 include/bwsl/MathUtils.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/MathUtils.hpp b/include/bwsl/MathUtils.hpp
index 901f097..ba060c9 100644
--- a/include/bwsl/MathUtils.hpp
+++ b/include/bwsl/MathUtils.hpp
@@ -183,8 +183,10 @@ cbinomial(T n, T k) -> double
   }
 
   for (T i = 1; i <= k; ++i) {
-    res *= n + 1 - i;
-    res /= i;
+    // do not let the intermediate values exceed the result
+    T const m = n - i + 1;
+    T const rem = res % i;
+    res = res / i * m + rem * m / i;
   }
 
   return res;
-- 
2.43.0


From 8629778d4328fbfbc154b9c4eafd4d4d8474e049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:21 +0000
Subject: [PATCH 21/31] fix: overflow of the lowest signed difference

---
 include/bwsl/MathUtils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bwsl/MathUtils.hpp b/include/bwsl/MathUtils.hpp
index ba060c9..01603f5 100644
--- a/include/bwsl/MathUtils.hpp
+++ b/include/bwsl/MathUtils.hpp
@@ -160,7 +160,7 @@ signeddiff(T a, T b) -> R
                 "Non valid unsigned type for signeddifference");
   static_assert(std::is_signed<R>::value,
                 "Non valid unsigned type for signeddifference");
-  return (a > b) ? (R)(a - b) : -(R)(b - a);
+  return (a >= b) ? (R)(a - b) : -(R)(b - a - 1) - 1;
 }
 
 ///
-- 
2.43.0


From 4bb05bef28144cdffcc2102cab4b4c7985644889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:25 +0000
Subject: [PATCH 22/31] fix: define the comparison operators of LinSpace

---
 include/bwsl/LinSpace.hpp | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/include/bwsl/LinSpace.hpp b/include/bwsl/LinSpace.hpp
index 59b9d73..0a96f03 100644
--- a/include/bwsl/LinSpace.hpp
+++ b/include/bwsl/LinSpace.hpp
@@ -74,10 +74,16 @@ private:
   unsigned long step_{ 0 };
 
   /// Compare two LinSpaces and check for equality
-  friend auto operator==(const LinSpace<T>& a, const LinSpace<T>& b) -> bool;
+  friend auto operator==(const LinSpace<T>& a, const LinSpace<T>& b) -> bool
+  {
+    return a.step_ == b.step_;
+  };
 
   /// Compare two LinSpaces and check for inequality
-  friend auto operator!=(const LinSpace<T>& a, const LinSpace<T>& b) -> bool;
+  friend auto operator!=(const LinSpace<T>& a, const LinSpace<T>& b) -> bool
+  {
+    return !(a == b);
+  }
 }; // class LinSpace
 
 template<typename T>
@@ -149,20 +155,6 @@ LinSpace<T>::Collect(unsigned long n) -> std::vector<T>
   return retval;
 }
 
-template<typename T>
-auto
-operator==(const LinSpace<T>& a, const LinSpace<T>& b) -> bool
-{
-  return a.step_ == b.step_;
-};
-
-template<typename T>
-auto
-operator!=(const LinSpace<T>& a, const LinSpace<T>& b) -> bool
-{
-  return !(a == b);
-}
-
 } // namespace bwsl
 
 // vim: set ts=2 sts=2 et sw=2 tw=80: //
-- 
2.43.0


From bb8ac8a7d08551b665f8791f2c3e7f8bd8f73e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:20 +0000
Subject: [PATCH 23/31] fix: define the strict comparisons of Approx

---
 include/bwsl/Approx.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/bwsl/Approx.hpp b/include/bwsl/Approx.hpp
index b9e9dbb..baa4b54 100644
--- a/include/bwsl/Approx.hpp
+++ b/include/bwsl/Approx.hpp
@@ -131,6 +131,30 @@ operator>=(Approx const& lhs, double rhs) -> bool
   return lhs.value_ > rhs || lhs == rhs;
 }
 
+inline auto
+operator<(double lhs, Approx const& rhs) -> bool
+{
+  return lhs < rhs.value_ && lhs != rhs;
+}
+
+inline auto
+operator<(Approx lhs, double const& rhs) -> bool
+{
+  return lhs.value_ < rhs && lhs != rhs;
+}
+
+inline auto
+operator>(double lhs, Approx const& rhs) -> bool
+{
+  return lhs > rhs.value_ && lhs != rhs;
+}
+
+inline auto
+operator>(Approx lhs, double const& rhs) -> bool
+{
+  return lhs.value_ > rhs && lhs != rhs;
+}
+
 inline Approx::Approx(double val)
   : value_(static_cast<double>(val))
 {
-- 
2.43.0


From fbbe427da4a52fbb650b28aabc117367ad023312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:11 +0000
Subject: [PATCH 24/31] fix: do not return a dangling message from the enum
 conversion error

---
 include/bwsl/EnumString.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/bwsl/EnumString.hpp b/include/bwsl/EnumString.hpp
index cdd1f0d..1e44526 100644
--- a/include/bwsl/EnumString.hpp
+++ b/include/bwsl/EnumString.hpp
@@ -66,20 +66,18 @@
   {                                                                            \
   public:                                                                      \
     EnumStringConversionFailed_##name(std::string const& value)                \
-      : value_(value)                                                          \
+      : message_("Unknown correspondance of " + value + " for enum " +         \
+                 BOOST_PP_STRINGIZE(name))                                     \
     {                                                                          \
     }                                                                          \
                                                                                \
     const char* what() const throw()                                           \
     {                                                                          \
-      auto s = std::string("Unknown correspondance of ") + value_ +            \
-               std::string(" for enum ") + name_;                              \
-      return s.c_str();                                                        \
+      return message_.c_str();                                                 \
     }                                                                          \
                                                                                \
   private:                                                                     \
-    const std::string name_{ BOOST_PP_STRINGIZE(name) };                       \
-    std::string value_{ "" };                                                  \
+    std::string message_;                                                      \
   };                                                                           \
                                                                                \
   inline std::string ToString(name v)                                          \
-- 
2.43.0


From 2f73d189e18c58e235bbed95c4a9216a404636fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:05 +0000
Subject: [PATCH 25/31] fix: enumerators named as the arguments of the
 conversion functions

---
 include/bwsl/EnumString.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/EnumString.hpp b/include/bwsl/EnumString.hpp
index 1e44526..65495d0 100644
--- a/include/bwsl/EnumString.hpp
+++ b/include/bwsl/EnumString.hpp
@@ -25,7 +25,7 @@
 /// Helper macro used in BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS
 ///
 #define BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS_TOSTRING_CASE(r, data, elem)  \
-  case elem:                                                                   \
+  case data::elem:                                                             \
     return BOOST_PP_STRINGIZE(elem);
 
 ///
@@ -33,7 +33,7 @@
 ///
 #define BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS_FROMSTRING_IF(r, data, elem)  \
   if (v == BOOST_PP_STRINGIZE(elem)) {                                         \
-    n = elem;                                                                  \
+    n = data::elem;                                                            \
     return;                                                                    \
   }
 
-- 
2.43.0


From 8a3e97814ff13a9936aeba321a232e4ab99f5f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:27 +0000
Subject: [PATCH 26/31] fix: paths that cannot be read do not compare equal

---
 include/bwsl/FileUtils.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/bwsl/FileUtils.hpp b/include/bwsl/FileUtils.hpp
index 9964112..db5e7b7 100644
--- a/include/bwsl/FileUtils.hpp
+++ b/include/bwsl/FileUtils.hpp
@@ -42,9 +42,13 @@ compare_files(const std::string& p1, const std::string& p2) -> bool
   // seek back to beginning and use equal to compare contents
   f1.seekg(0, std::ifstream::beg);
   f2.seekg(0, std::ifstream::beg);
-  return equal(std::istreambuf_iterator<char>(f1.rdbuf()),
-               std::istreambuf_iterator<char>(),
-               std::istreambuf_iterator<char>(f2.rdbuf()));
+  try {
+    return equal(std::istreambuf_iterator<char>(f1.rdbuf()),
+                 std::istreambuf_iterator<char>(),
+                 std::istreambuf_iterator<char>(f2.rdbuf()));
+  } catch (std::ios_base::failure const&) {
+    return false; // not readable, for example a directory
+  }
 }
 
 } // namespace bwsl
-- 
2.43.0


From acedaa379da93eca17653017bea83805be79e065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:55 +0000
Subject: [PATCH 27/31] fix: make compare_files inline so that several
 translation units can include it

---
 include/bwsl/FileUtils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bwsl/FileUtils.hpp b/include/bwsl/FileUtils.hpp
index db5e7b7..1c00a80 100644
--- a/include/bwsl/FileUtils.hpp
+++ b/include/bwsl/FileUtils.hpp
@@ -25,7 +25,7 @@ namespace bwsl {
 /// This code is based on this answer
 /// http://stackoverflow.com/a/37575457/4477378
 ///
-auto
+inline auto
 compare_files(const std::string& p1, const std::string& p2) -> bool
 {
   std::ifstream f1(p1, std::ifstream::binary | std::ifstream::ate);
-- 
2.43.0


From 492b82dbe4c850a572174c6966331d4e33051ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:45 +0000
Subject: [PATCH 28/31] fix: make the message of AccumulatorOverflow accessible

---
 include/bwsl/accumulators/AccumulatorsExceptions.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bwsl/accumulators/AccumulatorsExceptions.hpp b/include/bwsl/accumulators/AccumulatorsExceptions.hpp
index 5248c05..847178f 100644
--- a/include/bwsl/accumulators/AccumulatorsExceptions.hpp
+++ b/include/bwsl/accumulators/AccumulatorsExceptions.hpp
@@ -21,6 +21,7 @@ namespace bwsl::exception {
 
 class AccumulatorOverflow : public std::exception
 {
+public:
   [[nodiscard]] auto what() const noexcept -> const char* override
   {
     return "Too many measurements added to the accumulator";
-- 
2.43.0


From b65f3178c6e6b8a347a92dbb96e39f425ba4659a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:36 +0000
Subject: [PATCH 29/31] fix: engine states in archives do not depend on the
 global locale

---
 include/bwsl/RNGUtils.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bwsl/RNGUtils.hpp b/include/bwsl/RNGUtils.hpp
index 473038d..1bb19a3 100644
--- a/include/bwsl/RNGUtils.hpp
+++ b/include/bwsl/RNGUtils.hpp
@@ -19,6 +19,7 @@
 #include <boost/serialization/version.hpp>
 
 // std
+#include <locale>
 #include <random>
 #include <sstream>
 #include <string>
@@ -47,6 +48,8 @@ load(Ar& ar, std::mersenne_twister_engine<MT_TARGLIST>& mt, unsigned /*unused*/)
   std::string text;
   ar& text;
   std::istringstream iss(text);
+  // the state does not depend on the global locale
+  iss.imbue(std::locale::classic());
 
   if (!(iss >> mt)) {
     throw std::invalid_argument("mersenne_twister_engine state");
@@ -60,6 +63,7 @@ save(Ar& ar,
      unsigned /*unused*/) -> void
 {
   std::ostringstream oss;
+  oss.imbue(std::locale::classic());
   if (!(oss << mt)) {
     throw std::invalid_argument("mersenne_twister_engine state");
   }
-- 
2.43.0


From b1ac345058e90a1739a5cc6d5cd444500bbab60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:36 +0000
Subject: [PATCH 30/31] fix: reject archived engine states followed by anything
 else

---
 include/bwsl/RNGUtils.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bwsl/RNGUtils.hpp b/include/bwsl/RNGUtils.hpp
index 1bb19a3..89dfc8c 100644
--- a/include/bwsl/RNGUtils.hpp
+++ b/include/bwsl/RNGUtils.hpp
@@ -54,6 +54,10 @@ load(Ar& ar, std::mersenne_twister_engine<MT_TARGLIST>& mt, unsigned /*unused*/)
   if (!(iss >> mt)) {
     throw std::invalid_argument("mersenne_twister_engine state");
   }
+  // nothing may follow, like the rest of the state of a larger engine
+  if (std::string rest; iss >> rest) {
+    throw std::invalid_argument("mersenne_twister_engine state");
+  }
 }
 
 template<typename Ar, MT_TPARAMS>
-- 
2.43.0


From 5768637858401118c2a687171b843e51d88c6090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:36 +0000
Subject: [PATCH 31/31] fix: text of rational numbers does not depend on the
 global locale

---
 include/bwsl/RationalNum.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bwsl/RationalNum.hpp b/include/bwsl/RationalNum.hpp
index 7c0b6e6..ea184c6 100644
--- a/include/bwsl/RationalNum.hpp
+++ b/include/bwsl/RationalNum.hpp
@@ -25,6 +25,7 @@
 // std
 #include <iostream>
 #include <limits>
+#include <locale>
 #include <sstream>
 
 namespace bwsl {
@@ -339,6 +340,8 @@ inline void
 FromString(std::string const& str, RationalNum<T>& rhs)
 {
   auto iss = std::istringstream{ str };
+  // the text form does not depend on the global locale
+  iss.imbue(std::locale::classic());
   iss >> rhs;
 
   if (iss.fail()) {
@@ -351,6 +354,7 @@ inline auto
 ToString(RationalNum<T> const& rhs) -> std::string
 {
   auto oss = std::ostringstream{};
+  oss.imbue(std::locale::classic());
   oss << rhs;
   return oss.str();
 }
-- 
2.43.0

