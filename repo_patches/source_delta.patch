From c5e4daadd4b7284266a21ff96e27d4ca7c053e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:19 +0000
Subject: [PATCH 01/37] fix: ipf kept pointers into converted marginals after
 they were freed (python)

---
 src/module.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/module.cpp b/src/module.cpp
index e4e5cbc..76c2499 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -189,7 +189,8 @@ py::tuple ipf(const py::array_t<double>& seed, const py::list& ilist, const py::
     const py::array_t<int64_t> ia = ilist[i].cast<py::array_t<int64_t>>();
     const py::array_t<double> ma = mlist[i].cast<py::array_t<double>>();
     indices[i] = toVector<int64_t>(ia);
-    marginals.push_back(asNDArray<double>(ma));
+    // take a copy: ma may be a converted temporary that does not outlive this iteration
+    marginals.push_back(toNDArray<double>(ma));
   }
 
   IPF<double> ipf(indices, marginals);
-- 
2.43.0


From 7bf547b46f39fc91761a1fa5d6c57b5055e80d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:56 +0000
Subject: [PATCH 02/37] fix: honour the memory layout of numpy inputs (python)

---
 src/module.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/module.cpp b/src/module.cpp
index 76c2499..a9588e8 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -55,7 +55,9 @@ std::vector<T> toVector(const py::array_t<T>& a)
   {
     throw py::value_error("cannot convert multidimensional array to vector");
   }
-  return std::vector<T>(cbegin(a), cend(a));
+  // the input can have any memory layout
+  const py::array_t<T, py::array::c_style | py::array::forcecast> contiguous(a);
+  return std::vector<T>(contiguous.data(), contiguous.data() + contiguous.size());
 }
 
 template<typename T>
@@ -66,13 +68,18 @@ NDArray<T> toNDArray(const py::array_t<T>& np)
   for (size_t i = 0; i < dim; ++i)
     sizes[i] = np.shape(i);
   NDArray<T> tmp(sizes);
-  std::copy(cbegin(np), cend(np), const_cast<T*>(tmp.rawData()));
+  // the input can have any memory layout
+  const py::array_t<T, py::array::c_style | py::array::forcecast> contiguous(np);
+  std::copy(contiguous.data(), contiguous.data() + contiguous.size(), const_cast<T*>(tmp.rawData()));
   return tmp;
 }
 
 template<typename T>
 NDArray<T> asNDArray(const py::array_t<T>& np)
 {
+  // storage can only be shared if it is laid out as NDArray expects
+  if (!(np.flags() & py::array::c_style))
+    return toNDArray(np);
   // this is a bit iffy re: constness
   return NDArray<T>(std::vector<int64_t>(np.shape(), np.shape() + np.ndim()), const_cast<T*>(cbegin(np)));
 }
-- 
2.43.0


From adaa8d8f941bc79e4f15dd47a56c3ae8186c3047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:56 +0000
Subject: [PATCH 03/37] fix: flatten wrote out of bounds when the population
 contains a negative count

---
 src/NDArrayUtils.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/NDArrayUtils.h b/src/NDArrayUtils.h
index 7995c21..144ef98 100644
--- a/src/NDArrayUtils.h
+++ b/src/NDArrayUtils.h
@@ -205,6 +205,9 @@ template<typename T>
 std::vector<std::vector<int>> listify(const size_t pop, const NDArray<T>& t, int offset = 0)
 {
   // use offset = 1 for langauges where array indexing begins at 1 (e.g. R)
+  if (min(t) < 0)
+    throw std::runtime_error("negative value in population");
+
   std::vector<std::vector<int>> list(t.dim(), std::vector<int>(pop));
 
   Index index(t.sizes());
-- 
2.43.0


From a61125d560752700012341601daa762503eef528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:56 +0000
Subject: [PATCH 04/37] fix: reject empty and zero-dimensional arrays, which
 crashed the process

---
 src/NDArray.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/NDArray.h b/src/NDArray.h
index bb45f3c..14f8e4d 100644
--- a/src/NDArray.h
+++ b/src/NDArray.h
@@ -39,7 +39,7 @@ public:
   NDArray(const std::vector<int64_t>& sizes, T* const storage)
     : m_dim(sizes.size()), m_sizes(sizes)
   {
-    assert(m_sizes.size());
+    checkSizes(sizes);
     m_storageSize = sizes[0];
     assert(m_storageSize < MaxSize);
     for (size_t i = 1; i < m_dim; ++i)
@@ -113,6 +113,7 @@ public:
   {
     if (m_owned)
     {
+      checkSizes(sizes);
       m_dim = sizes.size();
       size_t oldStorageSize = m_storageSize;
 
@@ -202,6 +203,12 @@ public:
 
 private:
 
+  static void checkSizes(const std::vector<int64_t>& sizes)
+  {
+    if (sizes.empty() || *std::min_element(sizes.begin(), sizes.end()) < 1)
+      throw std::runtime_error("arrays must have at least one dimension and one element");
+  }
+
   void computeOffsets()
   {
     m_offsets.resize(m_dim);
-- 
2.43.0


From ab047332ff0390ad9b1fd37f17e8cfb39a90ed76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:56 +0000
Subject: [PATCH 05/37] fix: reject marginal indices that repeat a dimension,
 which made ipf loop forever

---
 src/Microsynthesis.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Microsynthesis.h b/src/Microsynthesis.h
index cc2ae9c..62c9c9e 100644
--- a/src/Microsynthesis.h
+++ b/src/Microsynthesis.h
@@ -43,6 +43,8 @@ public:
       for (size_t j = 0; j < m_indices[k].size(); ++j)
       {
         int64_t dim = m_indices[k][j];
+        if (std::count(m_indices[k].begin(), m_indices[k].end(), dim) > 1)
+          throw std::runtime_error("dimension %% repeated in index %%"s % dim % k);
         int64_t size = m_marginals[k].size(j);
         // check if already entered that size is same
         auto posit = dim_sizes.find(dim);
-- 
2.43.0


From 56e83238581d2dd53fbeb927be715a4446b86a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:56 +0000
Subject: [PATCH 06/37] fix: ipf looped forever when a marginal covers every
 dimension

---
 src/Index.cpp      | 4 ++++
 src/NDArrayUtils.h | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Index.cpp b/src/Index.cpp
index e7e72be..3310fda 100644
--- a/src/Index.cpp
+++ b/src/Index.cpp
@@ -105,6 +105,10 @@ MappedIndex::MappedIndex(const Index& idx, const std::vector<int64_t>& mappedDim
 
 const MappedIndex& MappedIndex::operator++()
 {
+  // nothing is mapped, so there is only one position
+  if (m_dim == 0)
+    m_atEnd = true;
+
   for (int64_t i = m_dim - 1; i != -1ll; --i)
   {
     ++*m_mappedIndex[i];
diff --git a/src/NDArrayUtils.h b/src/NDArrayUtils.h
index 144ef98..afaf1a9 100644
--- a/src/NDArrayUtils.h
+++ b/src/NDArrayUtils.h
@@ -136,13 +136,13 @@ std::vector<T> reduce(const NDArray<T>& input, size_t orient)
 }
 
 
-// Reduce n-D array to m-D sums (where m<n)
+// Reduce n-D array to m-D sums (where m<=n)
 template<typename T>
 NDArray<T> reduce(const NDArray<T>& input, const std::vector<int64_t>& preservedDims)
 {
   const size_t reducedDim = preservedDims.size();
   // check valid orientation
-  assert(reducedDim < input.dim());
+  assert(reducedDim <= input.dim());
 
   std::vector<int64_t> preservedSizes(reducedDim);
   for (size_t d = 0; d < reducedDim; ++d)
-- 
2.43.0


From 2b5c98255b4fbadfb84fa4ac17db6a4f3a019847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:15 +0000
Subject: [PATCH 07/37] fix: skipping more than 2^31 Sobol points looped
 forever

---
 src/SobolImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SobolImpl.cpp b/src/SobolImpl.cpp
index 3f33f82..961ff12 100644
--- a/src/SobolImpl.cpp
+++ b/src/SobolImpl.cpp
@@ -231,7 +231,7 @@ void nlopt_sobol_skip(SobolData* s, uint32_t n, uint32_t *x)
   if (s)
   {
 	  uint32_t k = 1;
-	  while (k*2 < n) k *= 2;
+	  while (k < n/2 + n%2) k *= 2; /* k*2 < n, without overflow */
 	  while (k-- > 0) sobol_gen(s, x);
   }
 }
-- 
2.43.0


From 239ebde76ab93630048b828d11580c736d4de838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:15 +0000
Subject: [PATCH 08/37] fix: qis skipped one Sobol point when asked to skip
 none

---
 src/SobolImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SobolImpl.cpp b/src/SobolImpl.cpp
index 961ff12..4bfdc18 100644
--- a/src/SobolImpl.cpp
+++ b/src/SobolImpl.cpp
@@ -228,7 +228,7 @@ int nlopt_sobol_next(SobolData* s, uint32_t *x)
    points equal to the largest power of 2 smaller than n */
 void nlopt_sobol_skip(SobolData* s, uint32_t n, uint32_t *x)
 {
-  if (s)
+  if (s && n > 0)
   {
 	  uint32_t k = 1;
 	  while (k < n/2 + n%2) k *= 2; /* k*2 < n, without overflow */
-- 
2.43.0


From 537bfd9259e62b1d5a9e7c6fa8199c94ade19c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:16 +0000
Subject: [PATCH 09/37] fix: qisi ignored the skips argument

---
 src/QISI.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/QISI.cpp b/src/QISI.cpp
index 2cd9c93..b85bea4 100644
--- a/src/QISI.cpp
+++ b/src/QISI.cpp
@@ -101,11 +101,10 @@ const NDArray<int64_t>& QISI::solve(const NDArray<double>& seed, bool reset)
   const std::vector<MappedIndex>& mappedIndices = makeMarginalMappings(main_index);
   m_array.assign(0ll);
 
-  Sobol sobol_seq(m_dim);
   for (int64_t i = 0; i < m_population; ++i)
   {
     // map sobol to a point in state space, store in index
-    const std::vector<uint32_t>& seq = sobol_seq.buf();
+    const std::vector<uint32_t>& seq = m_sobolSeq.buf();
     // ...
     getIndex(m_ipfSolution, seq, main_index);
 
-- 
2.43.0


From e805669dde1a5ac55afc71fa74d9a7ffa86cbe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:16 +0000
Subject: [PATCH 10/37] fix: reject skips that do not fit the Sobol counter
 instead of wrapping them

---
 src/QIS.cpp      | 2 ++
 src/QISI.cpp     | 2 ++
 src/rcpp_api.cpp | 3 +++
 3 files changed, 7 insertions(+)

diff --git a/src/QIS.cpp b/src/QIS.cpp
index 6185af4..b00da37 100644
--- a/src/QIS.cpp
+++ b/src/QIS.cpp
@@ -159,6 +159,8 @@ void sample(std::vector<int64_t>& dims, const std::vector<uint32_t>& seq, const
 QIS::QIS(const index_list_t& indices, marginal_list_t& marginals, int64_t skips)
 : Microsynthesis(indices, marginals), m_sobolSeq(m_dim), m_conv(false)
 {
+  if (skips < 0 || skips > std::numeric_limits<uint32_t>::max())
+    throw std::runtime_error("number of skips %% is not valid"s % skips);
   m_sobolSeq.skip(skips);
   m_stateValues.resize(m_array.sizes());
   // compute initial state probabilities and keep a copy
diff --git a/src/QISI.cpp b/src/QISI.cpp
index b85bea4..b4bf892 100644
--- a/src/QISI.cpp
+++ b/src/QISI.cpp
@@ -70,6 +70,8 @@ QISI::QISI(const index_list_t& indices, marginal_list_t& marginals, int64_t skip
   m_degeneracy(std::numeric_limits<double>::quiet_NaN()),
   m_conv(false)
 {
+  if (skips < 0 || skips > std::numeric_limits<uint32_t>::max())
+    throw std::runtime_error("number of skips %% is not valid"s % skips);
   m_sobolSeq.skip(skips);
 }
 
diff --git a/src/rcpp_api.cpp b/src/rcpp_api.cpp
index bb9eb1b..43c3bfe 100644
--- a/src/rcpp_api.cpp
+++ b/src/rcpp_api.cpp
@@ -454,6 +454,9 @@ NumericMatrix sobolSequence(int dim, int n, int skip = 0)
 {
   static const double scale = 0.5 / (1ull<<31);
 
+  if (skip < 0)
+    throw std::runtime_error("skip cannot be negative");
+
   NumericMatrix m(n, dim);
 
   Sobol s(dim, skip);
-- 
2.43.0


From df7a6b8fb0daa3911310d01ff8c4185a84555f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:16 +0000
Subject: [PATCH 11/37] fix: an exhausted SobolSequence did not end iteration
 (python)

---
 src/module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module.cpp b/src/module.cpp
index a9588e8..d3977b5 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -151,7 +151,7 @@ public:
       std::transform(buf.cbegin(), buf.cend(), begin(sequence), [](uint32_t i) { return i * Sobol::SCALE; });
       return sequence;
     }
-    catch(const std::runtime_error&)
+    catch(const std::out_of_range&)
     {
       throw py::stop_iteration();
     }
-- 
2.43.0


From 985e29d562387a072af98174d96e041f9a5ef467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:16 +0000
Subject: [PATCH 12/37] fix: SobolSequence wrapped dimensions above 2^32
 instead of rejecting them (python)

---
 src/module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module.cpp b/src/module.cpp
index d3977b5..051faf8 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -140,7 +140,7 @@ py::tuple integerise1d(py::array_t<double> frac_a, int pop)
 class SobolGenerator
 {
 public:
-  SobolGenerator(uint32_t dim, uint32_t nSkip = 0) : m_sobol(dim, nSkip) { }
+  SobolGenerator(size_t dim, uint32_t nSkip = 0) : m_sobol(dim, nSkip) { }
 
   py::array_t<double> next()
   {
-- 
2.43.0


From 8908b90c4c1f39633ae4be0c9557af095becb897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:43 +0000
Subject: [PATCH 13/37] fix: check the Sobol dimension before allocating a
 point of that size

---
 src/Sobol.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Sobol.cpp b/src/Sobol.cpp
index 3a0b8e5..71b38b9 100644
--- a/src/Sobol.cpp
+++ b/src/Sobol.cpp
@@ -6,13 +6,14 @@
 #include <cstdint>
 
 
-Sobol::Sobol(size_t dim, uint32_t nSkip) : m_dim(dim), m_buf(dim), m_pos(dim) // ensures m_buf gets populated on 1st access
+Sobol::Sobol(size_t dim, uint32_t nSkip) : m_dim(dim), m_pos(dim) // ensures m_buf gets populated on 1st access
 {
   if (dim < 1 || dim > 1111)
   {
     throw std::range_error("Dim %% is not in valid range [1,1111]"s % dim);
   }
 
+  m_buf.resize(dim);
   m_s = nlopt_sobol_create(dim);
   if (nSkip > 0)
     skip(nSkip);
-- 
2.43.0


From e0ea100a35b684ae1cd2c2299b7050182c0d9281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:14 +0000
Subject: [PATCH 14/37] fix: chi-squared was NaN when a state is neither
 expected nor sampled

---
 src/StatFuncs.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/StatFuncs.h b/src/StatFuncs.h
index 2d5152c..f13b66d 100644
--- a/src/StatFuncs.h
+++ b/src/StatFuncs.h
@@ -38,6 +38,9 @@ double chiSq(const NDArray<T>& sample, const NDArray<U>& reference)
   double chisq = 0.0;
   for (Index index(sample.sizes()); !index.end(); ++index)
   {
+    // a state that is neither expected nor sampled contributes nothing
+    if (reference[index] == 0 && sample[index] == 0)
+      continue;
     // m is the mean population of this state
     chisq += (sample[index] - reference[index]) * (sample[index] - reference[index]) / reference[index];
   }
-- 
2.43.0


From 1c0f364510b4f30f6226512b12a2f75de22b51a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:25 +0000
Subject: [PATCH 15/37] fix: qis expectation was not the IPF solution when
 marginals share dimensions

---
 src/QIS.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/QIS.cpp b/src/QIS.cpp
index b00da37..3ac345a 100644
--- a/src/QIS.cpp
+++ b/src/QIS.cpp
@@ -1,5 +1,6 @@
 
 #include "QIS.h"
+#include "IPF.h"
 #include "Index.h"
 #include "StatFuncs.h"
 
@@ -165,16 +166,11 @@ QIS::QIS(const index_list_t& indices, marginal_list_t& marginals, int64_t skips)
   m_stateValues.resize(m_array.sizes());
   // compute initial state probabilities and keep a copy
   computeStateValues();
-  NDArray<double>::copy(m_stateValues, m_expectedStateOccupancy);
-  // scale to get expected occupancy
-  double scale = double(m_population) / sum(m_stateValues);
-  for (Index index(m_expectedStateOccupancy.sizes()); !index.end(); ++index)
-    m_expectedStateOccupancy[index] *= scale;
-#ifdef VERBOSE
-  // if (sum(m_expectedStateOccupancy) != m_population)
-  //   throw std::logic_error("mismatch in expected state occupancy" + std::to_string(sum(m_expectedStateOccupancy)) + " vs " + std::to_string(m_population));
-  std::cout << "scaling factor = " << 1.0 / scale << std::endl;
-#endif
+  // expected occupancy is the IPF solution for a uniform seed (the marginals may share dimensions, so their product won't do)
+  NDArray<double> seed(m_array.sizes());
+  seed.assign(1.0);
+  IPF<int64_t> ipf(m_indices, m_marginals);
+  NDArray<double>::copy(ipf.solve(seed), m_expectedStateOccupancy);
 }
 
 
-- 
2.43.0


From 8f312a1ee76013ed5e40e1e015ab530614f3aab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:53 +0000
Subject: [PATCH 16/37] fix: integerise of a 1-d array lost an individual when
 its sum fell just short of an integer

---
 src/Integerise.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Integerise.cpp b/src/Integerise.cpp
index c98b899..1ee5c3a 100644
--- a/src/Integerise.cpp
+++ b/src/Integerise.cpp
@@ -5,6 +5,7 @@
 #include "Log.h"
 
 #include <algorithm>
+#include <limits>
 #include <numeric>
 #include <cmath>
 //#include <iostream>
@@ -62,9 +63,14 @@ Integeriser::Integeriser(const NDArray<double>& seed) : m_seed(seed)
   {
     // convert to vector (reduce 1-d special case)
     std::vector<double> p = reduce(seed, 0);
-    int pop = sum(seed);
+    // sum can fall just short of an integer
+    const int64_t total = checked_round(sum(seed));
+    if (total > std::numeric_limits<int>::max())
+      throw std::runtime_error("population %% is too large"s % total);
+    int pop = static_cast<int>(total);
     // convert to probabilities
-    for (auto& x: p) x /= pop;
+    if (pop != 0)
+      for (auto& x: p) x /= pop;
     std::vector<int> tmp = integeriseMarginalDistribution(p, pop, m_rmse);
     m_result.resize({(int64_t)tmp.size()});
     std::copy(tmp.begin(), tmp.end(), m_result.begin());
-- 
2.43.0


From 25c8179fecd502054e27c558a17bd0d1915fda76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:53 +0000
Subject: [PATCH 17/37] fix: integerise crashed or returned garbage for empty,
 negative or non-finite frequencies

---
 src/Integerise.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Integerise.cpp b/src/Integerise.cpp
index 1ee5c3a..ebc8631 100644
--- a/src/Integerise.cpp
+++ b/src/Integerise.cpp
@@ -24,6 +24,14 @@ int64_t checked_round(double x, double tol=1e-4) // loose tolerance ~1/4 mantiss
 std::vector<int> integeriseMarginalDistribution(const std::vector<double>& p, int pop, double& rmse)
 {
   const size_t n = p.size();
+  if (n == 0)
+    throw std::runtime_error("no frequencies to integerise");
+  for (double x: p)
+  {
+    if (!(x >= 0.0) || std::isinf(x))
+      throw std::runtime_error("frequency %% is not valid"s % x);
+  }
+
   std::vector<int> f(n);
   std::vector<double> r(n);
 
-- 
2.43.0


From 044712ea38c605062a69bbfd869ced9c4b1ce405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:38 +0000
Subject: [PATCH 18/37] fix: reject negative and non-finite seeds, which
 produced negative populations or a false convergence

---
 src/IPF.h          | 5 +++++
 src/Integerise.cpp | 5 ++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/IPF.h b/src/IPF.h
index 8fa5219..43de188 100644
--- a/src/IPF.h
+++ b/src/IPF.h
@@ -44,6 +44,11 @@ public:
       if (seed.sizes()[d] != this->m_array.sizes()[d])
         throw std::runtime_error("seed dimensions %% are inconsistent with that implied by marginals (%%)"s % seed.sizes() % this->m_array.sizes());
     }
+    for (Index index(seed.sizes()); !index.end(); ++index)
+    {
+      if (!(seed[index] >= 0.0) || std::isinf(seed[index]))
+        throw std::runtime_error("seed value %% is negative or not finite"s % seed[index]);
+    }
 
     Index index_main(this->m_array.sizes());
 
diff --git a/src/Integerise.cpp b/src/Integerise.cpp
index ebc8631..4061592 100644
--- a/src/Integerise.cpp
+++ b/src/Integerise.cpp
@@ -14,7 +14,8 @@ namespace {
 
 int64_t checked_round(double x, double tol=1e-4) // loose tolerance ~1/4 mantissa precision
 {
-  if (fabs(x - round(x)) > tol)
+  // (also catches values that are not finite)
+  if (!(fabs(x - round(x)) <= tol))
     throw std::runtime_error("Marginal or total value %% is not an integer (within tolerance %%)"s % x % tol);
   return (int64_t)round(x);
 }
@@ -65,6 +66,8 @@ Integeriser::Integeriser(const NDArray<double>& seed) : m_seed(seed)
   size_t dim = m_seed.dim();
   // check total population is integral (or close)
   checked_round(sum(m_seed));
+  if (min(m_seed) < 0)
+    throw std::runtime_error("negative value in population: %%"s % min(m_seed));
 
   // 1-d special case: use prob2IntFreq
   if (dim == 1)
-- 
2.43.0


From b2a8769f90918f1b61853a566cc019af8be9a563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:38 +0000
Subject: [PATCH 19/37] fix: reject marginals that are not finite

---
 src/Microsynthesis.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Microsynthesis.h b/src/Microsynthesis.h
index 62c9c9e..ab188c6 100644
--- a/src/Microsynthesis.h
+++ b/src/Microsynthesis.h
@@ -10,6 +10,7 @@
 
 #include <vector>
 #include <map>
+#include <cmath>
 
 #include <string>
 #include <stdexcept>
@@ -63,6 +64,8 @@ public:
     {
       if (min(m_marginals[k]) < 0)
         throw std::runtime_error("negative value in marginal %%: %%"s % k % min(m_marginals[k]));
+      if (!std::isfinite(static_cast<double>(sum(m_marginals[k]))))
+        throw std::runtime_error("marginal %% contains a value that is not finite"s % k);
     }
 
     m_dim = dim_sizes.size();
-- 
2.43.0


From 7a406614e50427526e92fd9731b1095b39a4ace9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:38 +0000
Subject: [PATCH 20/37] fix: a seed with the wrong number of dimensions was
 read out of bounds (R)

---
 src/rcpp_api.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rcpp_api.cpp b/src/rcpp_api.cpp
index 43c3bfe..616c09d 100644
--- a/src/rcpp_api.cpp
+++ b/src/rcpp_api.cpp
@@ -92,6 +92,8 @@ std::vector<int64_t> getDimension(List indices, List marginals)
 void checkSeed(NumericVector seed, const std::vector<int64_t>& impliedDim)
 {
   const Dimension& seedDim = seed.attr("dim");
+  if (static_cast<size_t>(seedDim.size()) != impliedDim.size())
+    throw std::runtime_error("mismatch between seed dimensions and those implied by marginals");
   for (size_t i = 0; i < static_cast<size_t>(seedDim.size()); ++i)
   {
     if (seedDim[i] != impliedDim[i])
-- 
2.43.0


From 0e26b857f17d09af9d44d6c4f07e7b38d3e632a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:38 +0000
Subject: [PATCH 21/37] fix: flatten read out of bounds when given fewer names
 than dimensions (R)

---
 src/rcpp_api.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rcpp_api.cpp b/src/rcpp_api.cpp
index 616c09d..f040e7a 100644
--- a/src/rcpp_api.cpp
+++ b/src/rcpp_api.cpp
@@ -490,6 +490,9 @@ DataFrame flatten(IntegerVector stateOccupancies, StringVector categoryNames)
   const NDArray<int64_t>& a = Rhelpers::convertArray<int64_t, IntegerVector>(stateOccupancies);
   int64_t pop = sum(a);
 
+  if (static_cast<size_t>(categoryNames.size()) != a.dim())
+    throw std::runtime_error("number of category names differs from number of dimensions");
+
   // for R indices start at 1
   const std::vector<std::vector<int>>& list = listify(pop, a, 1);
 
-- 
2.43.0


From 5b03ae7bc3ec66f9b835ff9bf0e65418db373f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:32 +0000
Subject: [PATCH 22/37] fix: qisi and integerise threw instead of returning an
 approximate population when no exact one is reachable

---
 src/QISI.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/QISI.cpp b/src/QISI.cpp
index b4bf892..5983240 100644
--- a/src/QISI.cpp
+++ b/src/QISI.cpp
@@ -128,8 +128,11 @@ const NDArray<int64_t>& QISI::solve(const NDArray<double>& seed, bool reset)
     print(m_ipfSolution.rawData(), m_ipfSolution.storageSize(), m_ipfSolution.sizes()[0]);
 #endif
     --m_ipfSolution[main_index];
-    if (m_ipfSolution[main_index] < 0.0)
+    if (m_conv && m_ipfSolution[main_index] < 0.0)
       recomputeIPF(seed);
+    // if no exact solution can be reached from here, carry on with the initial probabilities to get an approximate one
+    if (m_ipfSolution[main_index] < 0.0 || !(sum(m_ipfSolution) > 0.0))
+      NDArray<double>::copy(m_expectedStateOccupancy, m_ipfSolution);
   }
   m_chiSq = ::chiSq(m_array, m_expectedStateOccupancy);
 
-- 
2.43.0


From a3bf98025f2e2141b40e2f95f8df00488b1af944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:39 +0000
Subject: [PATCH 23/37] verification hook: allow a harness to supply the
 quasirandom points (HUMANLEAGUE_VERIFY)

---
 src/SobolImpl.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/SobolImpl.cpp b/src/SobolImpl.cpp
index 4bfdc18..981baeb 100644
--- a/src/SobolImpl.cpp
+++ b/src/SobolImpl.cpp
@@ -215,9 +215,24 @@ void nlopt_sobol_destroy(SobolData* s)
   }
 }
 
+#ifdef HUMANLEAGUE_VERIFY
+/* verification hook: lets a harness supply the points in place of the generator. Returns
+   1 if it supplied a point, 0 if the sequence is to be treated as exhausted, -1 to generate normally */
+extern __attribute__((visibility("default"))) int (*hl_verify_next)(uint32_t sdim, uint32_t *x);
+int (*hl_verify_next)(uint32_t sdim, uint32_t *x) = NULL;
+#endif
+
 /* next vector x[sdim] in Sobol sequence, with each x[i] in (0,1) */
 int nlopt_sobol_next(SobolData* s, uint32_t *x)
 {
+#ifdef HUMANLEAGUE_VERIFY
+  if (hl_verify_next)
+  {
+    int supplied = hl_verify_next(s->sdim, x);
+    if (supplied >= 0)
+      return supplied;
+  }
+#endif
   // fails (returns 0) if attempt to generate >=2^32 numbers
   return sobol_gen(s, x);
 }
-- 
2.43.0


From 2d1e95aaa5ba3aea802d936326b8f57809c8851d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:18 +0000
Subject: [PATCH 24/37] fix: flatten wrote out of bounds when the counts add up
 to more than 2^64

---
 src/module.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/module.cpp b/src/module.cpp
index 051faf8..eb1298b 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -100,6 +100,8 @@ py::list flatten(const py::array_t<int64_t>& a)
   for (Index i(array.sizes()); !i.end(); ++i)
   {
     pop += array[i];
+    if (array[i] >= 0 && pop < static_cast<size_t>(array[i]))
+      throw std::overflow_error("population is too large");
   }
 
   const std::vector<std::vector<int>>& list = listify(pop, array);
-- 
2.43.0


From 687434a830d114712a8987fa30fe345bda6542ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:51 +0000
Subject: [PATCH 25/37] fix: integerise returned an empty population for totals
 that do not fit in 64 bits

---
 src/Integerise.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Integerise.cpp b/src/Integerise.cpp
index 4061592..2fed46e 100644
--- a/src/Integerise.cpp
+++ b/src/Integerise.cpp
@@ -17,6 +17,8 @@ int64_t checked_round(double x, double tol=1e-4) // loose tolerance ~1/4 mantiss
   // (also catches values that are not finite)
   if (!(fabs(x - round(x)) <= tol))
     throw std::runtime_error("Marginal or total value %% is not an integer (within tolerance %%)"s % x % tol);
+  if (fabs(x) >= 9.2e18) // does not fit
+    throw std::runtime_error("Marginal or total value %% is too large"s % x);
   return (int64_t)round(x);
 }
 
-- 
2.43.0


From 9b0c9171d4ab3a789c6a82df4f6a02543abd134c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:51 +0000
Subject: [PATCH 26/37] fix: integerise accepted frequencies that are all
 negative (python)

---
 src/module.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/module.cpp b/src/module.cpp
index eb1298b..32195b2 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -127,6 +127,8 @@ py::tuple integerise1d(py::array_t<double> frac_a, int pop)
   std::vector<double> prob = toVector(frac_a);
   double sum = std::accumulate(prob.begin(), prob.end(), 0.0);
   for (double& p: prob) {
+    if (p < 0.0) // (normalising could hide this)
+      throw py::value_error("frequencies cannot be negative");
     p /= sum;
   }
   double var = 0.0;
-- 
2.43.0


From 910f1dcc4d7d49a3bf64382613f86d1ea09b1de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:45 +0000
Subject: [PATCH 27/37] fix: problems with more states than can be counted
 crashed the process

---
 src/NDArray.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/NDArray.h b/src/NDArray.h
index 14f8e4d..024b78a 100644
--- a/src/NDArray.h
+++ b/src/NDArray.h
@@ -2,6 +2,7 @@
 #pragma once
 
 #include <algorithm>
+#include <limits>
 #include <stdexcept>
 
 #include <vector>
@@ -207,6 +208,14 @@ private:
   {
     if (sizes.empty() || *std::min_element(sizes.begin(), sizes.end()) < 1)
       throw std::runtime_error("arrays must have at least one dimension and one element");
+    // the number of elements must not overflow
+    size_t available = std::numeric_limits<int64_t>::max() / sizeof(T);
+    for (int64_t size: sizes)
+    {
+      available /= size;
+      if (available == 0)
+        throw std::runtime_error("array is too large");
+    }
   }
 
   void computeOffsets()
-- 
2.43.0


From f0b635d6777489114897576e5691aeda3ecfab3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:26 +0000
Subject: [PATCH 28/37] fix: marginal totals that do not fit in 64 bits wrapped
 around and were accepted

---
 src/Microsynthesis.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Microsynthesis.h b/src/Microsynthesis.h
index ab188c6..ed5ff20 100644
--- a/src/Microsynthesis.h
+++ b/src/Microsynthesis.h
@@ -11,6 +11,8 @@
 #include <vector>
 #include <map>
 #include <cmath>
+#include <limits>
+#include <numeric>
 
 #include <string>
 #include <stdexcept>
@@ -64,8 +66,12 @@ public:
     {
       if (min(m_marginals[k]) < 0)
         throw std::runtime_error("negative value in marginal %%: %%"s % k % min(m_marginals[k]));
-      if (!std::isfinite(static_cast<double>(sum(m_marginals[k]))))
+      const double total = std::accumulate(m_marginals[k].begin(), m_marginals[k].end(), 0.0);
+      if (!std::isfinite(total))
         throw std::runtime_error("marginal %% contains a value that is not finite"s % k);
+      // the population is a 64 bit integer
+      if (total >= static_cast<double>(std::numeric_limits<int64_t>::max()))
+        throw std::runtime_error("the total of marginal %% is too large"s % k);
     }
 
     m_dim = dim_sizes.size();
-- 
2.43.0


From 8b78de703ff0e178ff1ba6a7e12d08b55b0614e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:26 +0000
Subject: [PATCH 29/37] fix: unaligned numpy arrays were accessed as if they
 were aligned

---
 src/module.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/module.cpp b/src/module.cpp
index 32195b2..f2e1cdf 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -77,8 +77,8 @@ NDArray<T> toNDArray(const py::array_t<T>& np)
 template<typename T>
 NDArray<T> asNDArray(const py::array_t<T>& np)
 {
-  // storage can only be shared if it is laid out as NDArray expects
-  if (!(np.flags() & py::array::c_style))
+  // storage can only be shared if it is laid out (and aligned) as NDArray expects
+  if (!(np.flags() & py::array::c_style) || !(np.flags() & py::detail::npy_api::NPY_ARRAY_ALIGNED_))
     return toNDArray(np);
   // this is a bit iffy re: constness
   return NDArray<T>(std::vector<int64_t>(np.shape(), np.shape() + np.ndim()), const_cast<T*>(cbegin(np)));
-- 
2.43.0


From e2f699340e9f26da1cc5c65d14560703b3d2c146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:26 +0000
Subject: [PATCH 30/37] fix: max of an array returned its minimum

---
 src/NDArrayUtils.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/NDArrayUtils.h b/src/NDArrayUtils.h
index afaf1a9..4a98a3e 100644
--- a/src/NDArrayUtils.h
+++ b/src/NDArrayUtils.h
@@ -56,12 +56,12 @@ T min(const NDArray<T>& a)
 template<typename T>
 T max(const NDArray<T>& a)
 {
-  T minVal = std::numeric_limits<T>::max();
+  T maxVal = std::numeric_limits<T>::lowest();
   for (Index i(a.sizes()); !i.end(); ++i)
   {
-    minVal = std::min(minVal, a[i]);
+    maxVal = std::max(maxVal, a[i]);
   }
-  return minVal;
+  return maxVal;
 }
 
 // TODO move printing somehwere else
-- 
2.43.0


From dada30feef1b22c0d806847466dfd460d7afc9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:29 +0000
Subject: [PATCH 31/37] fix: indices shorter than their marginal's dimensions
 were read out of bounds (R)

---
 src/rcpp_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rcpp_api.cpp b/src/rcpp_api.cpp
index f040e7a..23f0b77 100644
--- a/src/rcpp_api.cpp
+++ b/src/rcpp_api.cpp
@@ -77,7 +77,7 @@ std::vector<int64_t> getDimension(List indices, List marginals)
     {
       colMajorSizes.push_back(mv.size());
     }
-    for (size_t j = 0; j < colMajorSizes.size(); ++j)
+    for (size_t j = 0; j < colMajorSizes.size() && j < static_cast<size_t>(iv.size()); ++j)
     {
       lookup[iv[j]] = colMajorSizes[j];
     }
-- 
2.43.0


From c4ee04cd2c3fd25acd524786323686ccc3a059bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:40 +0000
Subject: [PATCH 32/37] fix: slice accepted negative positions and wrote
 outside its index

---
 src/NDArrayUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NDArrayUtils.h b/src/NDArrayUtils.h
index 4a98a3e..7faac85 100644
--- a/src/NDArrayUtils.h
+++ b/src/NDArrayUtils.h
@@ -178,7 +178,7 @@ NDArray<T> slice(const NDArray<T>& outer, const std::vector<std::pair<int64_t, i
   {
     if ((size_t)fixedDims[i].first >= outer.dim())
       throw std::runtime_error("dimension out of bounds in slice");
-    if (fixedDims[i].second >= outer.sizes()[fixedDims[i].first])
+    if (fixedDims[i].second < 0 || fixedDims[i].second >= outer.sizes()[fixedDims[i].first])
       throw std::runtime_error("index out of bounds in slice");
   }
   // if dims empty have to make a complete copy of marginal and return it, which is massively inefficient
-- 
2.43.0


From 253aae74d5d62c9677e4bb44c148f7e162905e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:46 +0000
Subject: [PATCH 33/37] fix: flatten in R renamed columns and merged those with
 the same name

---
 src/rcpp_api.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rcpp_api.cpp b/src/rcpp_api.cpp
index 23f0b77..9f31926 100644
--- a/src/rcpp_api.cpp
+++ b/src/rcpp_api.cpp
@@ -497,11 +497,15 @@ DataFrame flatten(IntegerVector stateOccupancies, StringVector categoryNames)
   const std::vector<std::vector<int>>& list = listify(pop, a, 1);
 
   // DataFrame interface is poor and appears buggy. Best approach seems to insert columns in List then assign to DataFrame at end
-  List proxyDf;
+  // (by position and with its attributes in place, so that columns are neither renamed nor merged if names are repeated)
+  List proxyDf(a.dim());
   for (size_t i = 0; i < a.dim(); ++i)
   {
-    proxyDf[as<std::string>(categoryNames[i])] = list[i];
+    proxyDf[i] = list[i];
   }
+  proxyDf.attr("names") = categoryNames;
+  proxyDf.attr("row.names") = IntegerVector::create(NA_INTEGER, -static_cast<int>(pop));
+  proxyDf.attr("class") = "data.frame";
 
   return DataFrame(proxyDf);
 }
-- 
2.43.0


From 870e39053cb00fd5e73ae54b21267e7eea05069b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:27 +0000
Subject: [PATCH 34/37] fix: FixedIndex never ended when every dimension was
 fixed

---
 src/Index.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Index.cpp b/src/Index.cpp
index 3310fda..9003f90 100644
--- a/src/Index.cpp
+++ b/src/Index.cpp
@@ -174,6 +174,10 @@ FixedIndex::FixedIndex(const std::vector<int64_t>& sizes, const std::vector<std:
 
 const FixedIndex& FixedIndex::operator++()
 {
+  // everything is fixed, so there is only one position
+  if (m_freeDim == 0)
+    m_atEnd = true;
+
   for (int64_t i = m_freeDim - 1; i != -1ll; --i)
   {
     ++*m_freeIndex[i];
-- 
2.43.0


From c77d16876042057803465b7a91f5b5688bb11a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:46 +0000
Subject: [PATCH 35/37] fix: arrays that are not aligned were read as if they
 were

---
 src/module.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/module.cpp b/src/module.cpp
index f2e1cdf..5569ed2 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -48,6 +48,14 @@ const T* cend(const py::array_t<T>& a)
   return (const T*)a.request().ptr + a.size();
 }
 
+// the elements of a need not be aligned
+template<typename T>
+void copyBytes(const py::array_t<T, py::array::c_style | py::array::forcecast>& a, T* dest)
+{
+  const char* src = reinterpret_cast<const char*>(a.data());
+  std::copy(src, src + a.size() * sizeof(T), reinterpret_cast<char*>(dest));
+}
+
 template<typename T>
 std::vector<T> toVector(const py::array_t<T>& a)
 {
@@ -57,7 +65,9 @@ std::vector<T> toVector(const py::array_t<T>& a)
   }
   // the input can have any memory layout
   const py::array_t<T, py::array::c_style | py::array::forcecast> contiguous(a);
-  return std::vector<T>(contiguous.data(), contiguous.data() + contiguous.size());
+  std::vector<T> v(contiguous.size());
+  copyBytes(contiguous, v.data());
+  return v;
 }
 
 template<typename T>
@@ -70,7 +80,7 @@ NDArray<T> toNDArray(const py::array_t<T>& np)
   NDArray<T> tmp(sizes);
   // the input can have any memory layout
   const py::array_t<T, py::array::c_style | py::array::forcecast> contiguous(np);
-  std::copy(contiguous.data(), contiguous.data() + contiguous.size(), const_cast<T*>(tmp.rawData()));
+  copyBytes(contiguous, const_cast<T*>(tmp.rawData()));
   return tmp;
 }
 
-- 
2.43.0


From 8f5e2411a09ab7e68b10cc278bd718bbbad7757a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:37 +0000
Subject: [PATCH 36/37] fix: Sobol crashed if its tables could not be allocated

---
 src/Sobol.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Sobol.cpp b/src/Sobol.cpp
index 71b38b9..6b686b5 100644
--- a/src/Sobol.cpp
+++ b/src/Sobol.cpp
@@ -2,6 +2,7 @@
 #include "Log.h"
 
 #include <limits>
+#include <new>
 #include <stdexcept>
 #include <cstdint>
 
@@ -15,6 +16,8 @@ Sobol::Sobol(size_t dim, uint32_t nSkip) : m_dim(dim), m_pos(dim) // ensures m_b
 
   m_buf.resize(dim);
   m_s = nlopt_sobol_create(dim);
+  if (!m_s)
+    throw std::bad_alloc();
   if (nSkip > 0)
     skip(nSkip);
 }
@@ -51,8 +54,11 @@ void Sobol::skip(uint32_t n)
 
 void Sobol::reset(uint32_t nSkip)
 {
+  SobolData* const s = nlopt_sobol_create(m_dim);
+  if (!s)
+    throw std::bad_alloc();
   nlopt_sobol_destroy(m_s);
-  m_s = nlopt_sobol_create(m_dim);
+  m_s = s;
   if (nSkip > 0)
     skip(nSkip);
 }
-- 
2.43.0


From 7877bfcb315ea6d996b1794c8c8b6f8e1482216e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:37 +0000
Subject: [PATCH 37/37] fix: NDArray freed its storage twice, or leaked it, if
 memory ran out while resizing

---
 src/NDArray.h | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/NDArray.h b/src/NDArray.h
index 024b78a..c9270ff 100644
--- a/src/NDArray.h
+++ b/src/NDArray.h
@@ -115,24 +115,29 @@ public:
     if (m_owned)
     {
       checkSizes(sizes);
-      m_dim = sizes.size();
-      size_t oldStorageSize = m_storageSize;
-
-      m_sizes = sizes;
-      m_storageSize = sizes[0];
-      assert(m_storageSize < MaxSize);
-      for (size_t i = 1; i < m_dim; ++i)
+      size_t storageSize = sizes[0];
+      assert(storageSize < MaxSize);
+      for (size_t i = 1; i < sizes.size(); ++i)
       {
         assert(sizes[i] < MaxSize);
-        m_storageSize *= sizes[i];
+        storageSize *= sizes[i];
       }
 
+      // nothing is changed until all the memory needed has been allocated
+      m_sizes.reserve(sizes.size());
+      m_offsets.reserve(sizes.size());
+
       // no realloc if storageSize already big enough
-      if (m_storageSize > oldStorageSize)
+      if (storageSize > m_storageSize)
       {
+        T* const data = allocate(storageSize);
         deallocate(m_data);
-        m_data = allocate(m_storageSize);
+        m_data = data;
       }
+
+      m_dim = sizes.size();
+      m_sizes = sizes;
+      m_storageSize = storageSize;
       computeOffsets();
     }
     else
-- 
2.43.0

