From 0ea05075328b8523853cfbe6d28cbe5f4617daa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 01/45] fix: draw a fresh sample for every isolation tree

The sample vector was shared by all trees of a worker and never cleared, so
the k-th tree of a worker was grown on k*tree_size observations with
repetitions instead of tree_size observations without replacement.
---
 src/frds/algorithms/isolation_forest/IsolationForest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.cpp b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
index 576d94b..a18ad41 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.cpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
@@ -151,7 +151,6 @@ std::thread IsolationForest::grow(const unsigned int thread_id,
     // Make a vector from 0 to (nObs-1) representing the indices of observations
     std::vector<size_t> obs(this->nObs);
     std::iota(obs.begin(), obs.end(), 0);
-    std::vector<size_t> sample;
     // Make use of nObs and randomSeed in later random engine init
     auto random_offset =
         this->nObs %
@@ -162,6 +161,7 @@ std::thread IsolationForest::grow(const unsigned int thread_id,
       // The samples chosen and tree grown is thus determined by the number of
       // trees and random seed only, unaffected by the worker threads used
       static thread_local auto randomGen = std::mt19937_64(i + random_offset);
+      std::vector<size_t> sample;
       std::sample(obs.begin(), obs.end(), std::back_inserter(sample),
                   this->treeSize, randomGen);
       auto tree = std::make_unique<IsolationTree>();
-- 
2.43.0


From 4d99d052fd601b776d0826b8c3b328fa3b933d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 02/45] fix: share one random stream between the subtrees of an
 isolation tree

growTree took the generator by value, so the left and right subtrees of every
node drew identical random numbers and their splits were not independent.
---
 src/frds/algorithms/isolation_forest/IsolationForest.cpp | 2 +-
 src/frds/algorithms/isolation_forest/IsolationForest.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.cpp b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
index a18ad41..a65c160 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.cpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
@@ -11,7 +11,7 @@
 
 void IsolationForest::growTree(std::vector<size_t> &sample,
                                std::unique_ptr<IsolationTree::Node> &node,
-                               int const height, std::mt19937_64 randomGen) {
+                               int const height, std::mt19937_64 &randomGen) {
   auto nObs = sample.size();
   if ((nObs <= 1) || (height >= this->maxTreeHeight)) {
     node = std::make_unique<IsolationTree::Node>(-1, NAN, nullptr, true, nObs);
diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.hpp b/src/frds/algorithms/isolation_forest/IsolationForest.hpp
index e7c2ffd..d4d0a9f 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.hpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.hpp
@@ -60,7 +60,7 @@ class IsolationForest {
                     std::unique_ptr<IsolationTree::Node> &node, int length = 0);
   void growTree(std::vector<size_t> &sample,
                 std::unique_ptr<IsolationTree::Node> &node, int const height,
-                std::mt19937_64 randomGen);
+                std::mt19937_64 &randomGen);
   std::thread grow(const unsigned int thread_id, const unsigned int jobs);
   std::thread calAnomalyScores(const size_t &start_ob, const size_t &n);
   double anomalyScore(size_t const &ob);
-- 
2.43.0


From 7c57abf9d6459bc9b28ab669175b99251cf368fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 03/45] fix: make isolation forests independent of the number
 of worker threads

The generator was seeded once per worker thread, from the index of the first
tree that thread happened to grow, so the forest depended on how many
processors the machine has, although the comment promises the opposite. The
index ranges of the workers overlapped, the trees were stored in the order in
which threads finished, and nObs % randomSeed made every seed above the number
of observations equivalent. Seed every tree from (random seed, tree number) and
store it under its number.
---
 .../isolation_forest/IsolationForest.cpp      | 26 +++++++++----------
 .../isolation_forest/IsolationForest.hpp      |  3 ++-
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.cpp b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
index a65c160..a937f17 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.cpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
@@ -94,7 +94,7 @@ IsolationForest::IsolationForest(PyArrayObject *num_data,
       nObs(PyArray_DIM(num_data, 1)) {
   this->num_data = num_data;
   this->char_data = char_data;
-  this->trees.reserve(forestSize);
+  this->trees.resize(forestSize);
   this->anomalyScores.resize(this->nObs);
   // this->randomGen = std::mt19937_64(randomSeed);
   this->uniformDist =
@@ -145,29 +145,27 @@ double IsolationForest::pathLength(size_t const &ob,
   }
 }
 
-std::thread IsolationForest::grow(const unsigned int thread_id,
-                                  const unsigned int jobs) {
-  return std::thread([this, thread_id, jobs] {
+std::thread IsolationForest::grow(const size_t start, const size_t jobs) {
+  return std::thread([this, start, jobs] {
     // Make a vector from 0 to (nObs-1) representing the indices of observations
     std::vector<size_t> obs(this->nObs);
     std::iota(obs.begin(), obs.end(), 0);
-    // Make use of nObs and randomSeed in later random engine init
-    auto random_offset =
-        this->nObs %
-        (this->randomSeed > 0 ? this->randomSeed : 1 - this->randomSeed);
-    for (size_t i = thread_id * jobs; i < thread_id * jobs + jobs; i++) {
+    for (size_t i = start; i < start + jobs; i++) {
       // Sample `treeSize` observations without replacement
       // Random engine for the i-th sampling and tree construction
       // The samples chosen and tree grown is thus determined by the number of
       // trees and random seed only, unaffected by the worker threads used
-      static thread_local auto randomGen = std::mt19937_64(i + random_offset);
+      std::seed_seq seeds{
+          static_cast<std::uint64_t>(this->randomSeed) & 0xffffffff,
+          static_cast<std::uint64_t>(i) & 0xffffffff};
+      std::mt19937_64 randomGen(seeds);
       std::vector<size_t> sample;
       std::sample(obs.begin(), obs.end(), std::back_inserter(sample),
                   this->treeSize, randomGen);
       auto tree = std::make_unique<IsolationTree>();
       growTree(sample, tree->root, 0, randomGen);
       this->mylock.lock();
-      this->trees.push_back(std::move(tree));
+      this->trees[i] = std::move(tree);
       this->mylock.unlock();
     }
   });
@@ -180,11 +178,13 @@ void IsolationForest::grow() {
 
   Py_BEGIN_ALLOW_THREADS
 
-      for (size_t i = 0; i < this->workers; i++) {
+      size_t start = 0;
+  for (size_t i = 0; i < this->workers; i++) {
     auto jobs =
         i == 0 ? this->forestSize - jobs_per_processor * (this->workers - 1)
                : jobs_per_processor;
-    auto t = this->grow(i, jobs);
+    auto t = this->grow(start, jobs);
+    start += jobs;
     ts.push_back(std::move(t));
   }
 
diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.hpp b/src/frds/algorithms/isolation_forest/IsolationForest.hpp
index d4d0a9f..bbd044a 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.hpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.hpp
@@ -2,6 +2,7 @@
 #define FRDS_ALGO_ISOLATION_FOREST_H
 
 #define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
+#include <cstdint>
 #include <memory>
 #include <mutex>
 #include <random>
@@ -61,7 +62,7 @@ class IsolationForest {
   void growTree(std::vector<size_t> &sample,
                 std::unique_ptr<IsolationTree::Node> &node, int const height,
                 std::mt19937_64 &randomGen);
-  std::thread grow(const unsigned int thread_id, const unsigned int jobs);
+  std::thread grow(const size_t start, const size_t jobs);
   std::thread calAnomalyScores(const size_t &start_ob, const size_t &n);
   double anomalyScore(size_t const &ob);
 
-- 
2.43.0


From 5e1e3337be7a3383609b93ac833e7fb47e8e006b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 04/45] fix: send missing values down the branch they were
 grown in

growTree puts observations with a NaN into the left subtree, but pathLength
compared with < only and followed the right subtree, scoring a missing value
like the largest one.
---
 src/frds/algorithms/isolation_forest/IsolationForest.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.cpp b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
index a937f17..3136a14 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.cpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
@@ -123,7 +123,8 @@ double IsolationForest::pathLength(size_t const &ob,
   if (node->splitAttribute < this->n_num_attrs) {
     DataType val =
         *(DataType *)PyArray_GETPTR2(this->num_data, node->splitAttribute, ob);
-    if (val < node->splitValue) {
+    // Same rule as in `growTree`: NAN is "smaller" than any value
+    if (isnan(val) || (val < node->splitValue)) {
       return this->pathLength(ob, node->lnode, length + 1);
     } else {
       return this->pathLength(ob, node->rnode, length + 1);
-- 
2.43.0


From 690ac2514e8d3e29b164f2d07729e2a49bde7fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 05/45] fix: do not read strings past their numpy cell in the
 isolation forest

The longest strings of a column fill their cell and are not NUL-terminated, so
strlen/strcmp ran into the neighbouring cells and past the end of the array.
---
 .../isolation_forest/IsolationForest.cpp         | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.cpp b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
index 3136a14..ebacdc2 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.cpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
@@ -2,6 +2,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <cstring>
 #include <iterator>
 #include <numeric>
 
@@ -57,16 +58,18 @@ void IsolationForest::growTree(std::vector<size_t> &sample,
     // The datatype of the attribute is string
     CharDataType val = (CharDataType)PyArray_GETPTR2(
         this->char_data, attr - this->n_num_attrs, sample[dist(randomGen)]);
-    const auto val_len = strlen(val);
+    // numpy does not terminate a string that fills its cell
+    const size_t itemsize = PyArray_ITEMSIZE(this->char_data);
+    const auto val_len = strnlen(val, itemsize);
     for (auto &i : sample) {
       auto obsVal = (CharDataType)PyArray_GETPTR2(this->char_data,
                                                   attr - this->n_num_attrs, i);
-      const auto obsVal_len = strlen(obsVal);
+      const auto obsVal_len = strnlen(obsVal, itemsize);
       if (obsVal_len < val_len) {
         lobs.push_back(i);
       } else if (obsVal_len > val_len) {
         robs.push_back(i);
-      } else if (strcmp(obsVal, val) < 0) {
+      } else if (strncmp(obsVal, val, val_len) < 0) {
         lobs.push_back(i);
       } else {
         robs.push_back(i);
@@ -132,13 +135,14 @@ double IsolationForest::pathLength(size_t const &ob,
   } else {
     CharDataType val = (CharDataType)PyArray_GETPTR2(
         this->char_data, node->splitAttribute - this->n_num_attrs, ob);
-    const auto val_len = strlen(val);
-    const auto splitVal_len = strlen(node->splitChar);
+    const size_t itemsize = PyArray_ITEMSIZE(this->char_data);
+    const auto val_len = strnlen(val, itemsize);
+    const auto splitVal_len = strnlen(node->splitChar, itemsize);
     if (val_len < splitVal_len) {
       return this->pathLength(ob, node->lnode, length + 1);
     } else if (val_len > splitVal_len) {
       return this->pathLength(ob, node->rnode, length + 1);
-    } else if (strcmp(val, node->splitChar) < 0) {
+    } else if (strncmp(val, node->splitChar, val_len) < 0) {
       return this->pathLength(ob, node->lnode, length + 1);
     } else {
       return this->pathLength(ob, node->rnode, length + 1);
-- 
2.43.0


From 7cf61fababd62236af1f3f6900ca79dcb57cd3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 06/45] fix: leak no references from the isolation forest
 wrapper

PyArray_SETITEM does not steal the float created for every observation, the
numeric array leaked when the string array could not be converted, and the
write-back copy of an unusual output array was never resolved.
---
 .../algorithms/isolation_forest/iforest_module.cpp    | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/frds/algorithms/isolation_forest/iforest_module.cpp b/src/frds/algorithms/isolation_forest/iforest_module.cpp
index a044a4a..26b2d50 100644
--- a/src/frds/algorithms/isolation_forest/iforest_module.cpp
+++ b/src/frds/algorithms/isolation_forest/iforest_module.cpp
@@ -24,7 +24,10 @@ static PyObject *iforest_wrapper(PyObject *self, PyObject *args) {
   if (num_arr == NULL) return NULL;
   char_arr = (PyArrayObject *)PyArray_FROM_OTF(char_data, NPY_STRING,
                                                NPY_ARRAY_IN_ARRAY);
-  if (char_arr == NULL) return NULL;
+  if (char_arr == NULL) {
+    Py_DECREF(num_arr);
+    return NULL;
+  }
 
 #if NPY_API_VERSION >= 0x0000000c
   outArr = (PyArrayObject *)PyArray_FROM_OTF(out, NPY_DOUBLE,
@@ -51,12 +54,14 @@ static PyObject *iforest_wrapper(PyObject *self, PyObject *args) {
 
   // write the ascores to the output array
   for (npy_intp i = 0; i < nObs; i++) {
-    PyArray_SETITEM(outArr, (char *)PyArray_GETPTR1(outArr, i),
-                    PyFloat_FromDouble(iforest.anomalyScores[i]));
+    *(double *)PyArray_GETPTR1(outArr, i) = iforest.anomalyScores[i];
   }
 
   Py_DECREF(num_arr);
   Py_DECREF(char_arr);
+#if NPY_API_VERSION >= 0x0000000c
+  PyArray_ResolveWritebackIfCopy(outArr);
+#endif
   Py_DECREF(outArr);
 
   Py_INCREF(Py_None);
-- 
2.43.0


From ef88f19bbcc630a2416774fa29a3ce94cfe2b47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 07/45] fix: refuse isolation forests without attributes or
 trees

With no usable column the attribute index ran from 0 to SIZE_MAX and the
process crashed; a forest or tree size below 1 gave undefined conversions or
NaN scores; arrays of different lengths were read out of bounds.
---
 .../isolation_forest/iforest_module.cpp        | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/frds/algorithms/isolation_forest/iforest_module.cpp b/src/frds/algorithms/isolation_forest/iforest_module.cpp
index 26b2d50..5315f89 100644
--- a/src/frds/algorithms/isolation_forest/iforest_module.cpp
+++ b/src/frds/algorithms/isolation_forest/iforest_module.cpp
@@ -43,6 +43,24 @@ static PyObject *iforest_wrapper(PyObject *self, PyObject *args) {
     return NULL;
   }
 
+  if (PyArray_NDIM(num_arr) != 2 || PyArray_NDIM(char_arr) != 2 ||
+      PyArray_NDIM(outArr) != 1 ||
+      PyArray_DIM(char_arr, 1) != PyArray_DIM(num_arr, 1) ||
+      PyArray_DIM(outArr, 0) != PyArray_DIM(num_arr, 1) ||
+      PyArray_DIM(num_arr, 0) + PyArray_DIM(char_arr, 0) < 1 ||
+      forestSize < 1 || treeSize < 1) {
+    PyErr_SetString(PyExc_ValueError,
+                    "isolation forest needs at least one attribute, positive "
+                    "forest and tree sizes and arrays of matching shapes");
+    Py_DECREF(num_arr);
+    Py_DECREF(char_arr);
+#if NPY_API_VERSION >= 0x0000000c
+    PyArray_DiscardWritebackIfCopy(outArr);
+#endif
+    Py_DECREF(outArr);
+    return NULL;
+  }
+
   // number of obervations
   auto nObs = PyArray_DIM(num_arr, 1);
 
-- 
2.43.0


From b40ede51c406b9bea05ec41808526aa109ea0158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 08/45] fix: validate the arrays given to the native variance
 routines

The wrappers took the raw data pointer of whatever array they were given:
strided views (a column of a return matrix with zero_mean=True), integer or
float32 arrays gave wrong variances, and short parameter lists, short bounds,
empty or unequal series were read and written out of bounds. Convert to
contiguous doubles and refuse what does not fit.
---
 src/frds/algorithms/utils/utils_module.cpp | 138 ++++++++++++++++++---
 1 file changed, 122 insertions(+), 16 deletions(-)

diff --git a/src/frds/algorithms/utils/utils_module.cpp b/src/frds/algorithms/utils/utils_module.cpp
index dba85ae..62d651b 100644
--- a/src/frds/algorithms/utils/utils_module.cpp
+++ b/src/frds/algorithms/utils/utils_module.cpp
@@ -13,6 +13,19 @@
 
 #include "numpy/arrayobject.h"
 
+// A contiguous array of native doubles with the values of `arr` and the required
+// number of dimensions. Returns a new reference, or NULL with an exception set.
+static PyArrayObject *as_double_array(PyArrayObject *arr, int ndim) {
+  PyArrayObject *out = (PyArrayObject *)PyArray_FROM_OTF(
+      (PyObject *)arr, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
+  if (out != NULL && PyArray_NDIM(out) != ndim) {
+    Py_DECREF(out);
+    PyErr_SetString(PyExc_ValueError, "Invalid array dimensions");
+    return NULL;
+  }
+  return out;
+}
+
 // The wrapper function to be called from Python
 static PyObject *ewma_wrapper(PyObject *self, PyObject *args) {
   PyArrayObject *resids_in;
@@ -24,11 +37,22 @@ static PyObject *ewma_wrapper(PyObject *self, PyObject *args) {
     return NULL;
   }
 
+  resids_in = as_double_array(resids_in, 1);
+  if (resids_in == NULL) {
+    return NULL;
+  }
+
   // Construct the output array
   int T = PyArray_DIM(resids_in, 0);
+  if (T < 1) {
+    Py_DECREF(resids_in);
+    PyErr_SetString(PyExc_ValueError, "Empty residuals");
+    return NULL;
+  }
   npy_intp dims[1] = {T};
   PyObject *variance_out = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
   if (variance_out == NULL) {
+    Py_DECREF(resids_in);
     return NULL;
   }
 
@@ -36,6 +60,7 @@ static PyObject *ewma_wrapper(PyObject *self, PyObject *args) {
   ewma((double *)PyArray_DATA(resids_in),
        (double *)PyArray_DATA((PyArrayObject *)variance_out), T, initial_value,
        lam);
+  Py_DECREF(resids_in);
 
   return variance_out;
 }
@@ -50,10 +75,21 @@ static PyObject *bounds_check_wrapper(PyObject *self, PyObject *args) {
     return NULL;
   }
 
+  var_bounds_in = as_double_array(var_bounds_in, 1);
+  if (var_bounds_in == NULL) {
+    return NULL;
+  }
+  if (PyArray_DIM(var_bounds_in, 0) < 2) {
+    Py_DECREF(var_bounds_in);
+    PyErr_SetString(PyExc_ValueError, "Lower and upper bounds are required");
+    return NULL;
+  }
+
   // Extract lower and upper bounds
   double *bounds_ptr = (double *)PyArray_DATA(var_bounds_in);
   double lower = bounds_ptr[0];
   double upper = bounds_ptr[1];
+  Py_DECREF(var_bounds_in);
 
   // Call the core bounds_check function
   double result = bounds_check(sigma2, lower, upper);
@@ -75,27 +111,49 @@ static PyObject *compute_garch_variance_wrapper(PyObject *self,
     return NULL;
   }
 
-  // Check dimensions
-  if (PyArray_NDIM(resids_in) != 1 || PyArray_NDIM(var_bounds_in) != 2) {
-    PyErr_SetString(PyExc_ValueError, "Invalid array dimensions");
-    return NULL;
-  }
-
   // Extract parameters
   std::vector<double> params;
   PyObject *iter = PyObject_GetIter(params_obj);
+  if (iter == NULL) {
+    return NULL;
+  }
   PyObject *item;
   while ((item = PyIter_Next(iter))) {
     params.push_back(PyFloat_AsDouble(item));
     Py_DECREF(item);
   }
   Py_DECREF(iter);
+  if (PyErr_Occurred()) {
+    return NULL;
+  }
+  if (params.size() != 3) {
+    PyErr_SetString(PyExc_ValueError, "Invalid number of parameters");
+    return NULL;
+  }
+
+  resids_in = as_double_array(resids_in, 1);
+  if (resids_in == NULL) {
+    return NULL;
+  }
+  var_bounds_in = as_double_array(var_bounds_in, 2);
+  if (var_bounds_in == NULL) {
+    Py_DECREF(resids_in);
+    return NULL;
+  }
 
   // Construct the output array
   int T = PyArray_DIM(resids_in, 0);
   npy_intp dims[1] = {T};
-  PyObject *sigma2_out = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
+  PyObject *sigma2_out = NULL;
+  if (T < 1 || PyArray_DIM(var_bounds_in, 0) < T ||
+      PyArray_DIM(var_bounds_in, 1) != 2) {
+    PyErr_SetString(PyExc_ValueError, "Invalid array dimensions");
+  } else {
+    sigma2_out = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
+  }
   if (sigma2_out == NULL) {
+    Py_DECREF(resids_in);
+    Py_DECREF(var_bounds_in);
     return NULL;
   }
 
@@ -104,6 +162,8 @@ static PyObject *compute_garch_variance_wrapper(PyObject *self,
                          (double *)PyArray_DATA(resids_in),
                          (double *)PyArray_DATA(var_bounds_in), T, params,
                          backcast);
+  Py_DECREF(resids_in);
+  Py_DECREF(var_bounds_in);
 
   return sigma2_out;
 }
@@ -122,27 +182,49 @@ static PyObject *compute_gjrgarch_variance_wrapper(PyObject *self,
     return NULL;
   }
 
-  // Check dimensions
-  if (PyArray_NDIM(resids_in) != 1 || PyArray_NDIM(var_bounds_in) != 2) {
-    PyErr_SetString(PyExc_ValueError, "Invalid array dimensions");
-    return NULL;
-  }
-
   // Extract parameters
   std::vector<double> params;
   PyObject *iter = PyObject_GetIter(params_obj);
+  if (iter == NULL) {
+    return NULL;
+  }
   PyObject *item;
   while ((item = PyIter_Next(iter))) {
     params.push_back(PyFloat_AsDouble(item));
     Py_DECREF(item);
   }
   Py_DECREF(iter);
+  if (PyErr_Occurred()) {
+    return NULL;
+  }
+  if (params.size() != 4) {
+    PyErr_SetString(PyExc_ValueError, "Invalid number of parameters");
+    return NULL;
+  }
+
+  resids_in = as_double_array(resids_in, 1);
+  if (resids_in == NULL) {
+    return NULL;
+  }
+  var_bounds_in = as_double_array(var_bounds_in, 2);
+  if (var_bounds_in == NULL) {
+    Py_DECREF(resids_in);
+    return NULL;
+  }
 
   // Construct the output array
   int T = PyArray_DIM(resids_in, 0);
   npy_intp dims[1] = {T};
-  PyObject *sigma2_out = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
+  PyObject *sigma2_out = NULL;
+  if (T < 1 || PyArray_DIM(var_bounds_in, 0) < T ||
+      PyArray_DIM(var_bounds_in, 1) != 2) {
+    PyErr_SetString(PyExc_ValueError, "Invalid array dimensions");
+  } else {
+    sigma2_out = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
+  }
   if (sigma2_out == NULL) {
+    Py_DECREF(resids_in);
+    Py_DECREF(var_bounds_in);
     return NULL;
   }
 
@@ -151,6 +233,8 @@ static PyObject *compute_gjrgarch_variance_wrapper(PyObject *self,
                             (double *)PyArray_DATA(resids_in),
                             (double *)PyArray_DATA(var_bounds_in), T, params,
                             backcast);
+  Py_DECREF(resids_in);
+  Py_DECREF(var_bounds_in);
 
   return sigma2_out;
 }
@@ -169,12 +253,34 @@ static PyObject *dcc_conditional_correlations_wrapper(PyObject *self,
     return NULL;
   }
 
-  std::vector<double> rho =
-      DCC::conditional_correlations(a, b, resids1, resids2, sigma2_1, sigma2_2);
+  PyArrayObject *arrays[4] = {resids1, resids2, sigma2_1, sigma2_2};
+  for (int i = 0; i < 4; ++i) {
+    arrays[i] = as_double_array(arrays[i], 1);
+    if (arrays[i] != NULL && (PyArray_DIM(arrays[i], 0) < 1 ||
+                              PyArray_DIM(arrays[i], 0) != PyArray_DIM(arrays[0], 0))) {
+      Py_CLEAR(arrays[i]);
+      PyErr_SetString(PyExc_ValueError, "Invalid array dimensions");
+    }
+    if (arrays[i] == NULL) {
+      while (--i >= 0) {
+        Py_DECREF(arrays[i]);
+      }
+      return NULL;
+    }
+  }
+
+  std::vector<double> rho = DCC::conditional_correlations(
+      a, b, arrays[0], arrays[1], arrays[2], arrays[3]);
+  for (PyArrayObject *array : arrays) {
+    Py_DECREF(array);
+  }
 
   npy_intp dims[1] = {static_cast<npy_intp>(rho.size())};
   PyArrayObject *py_rho =
       (PyArrayObject *)PyArray_SimpleNew(1, dims, NPY_DOUBLE);
+  if (py_rho == NULL) {
+    return NULL;
+  }
   std::copy(rho.begin(), rho.end(), (double *)PyArray_DATA(py_rho));
 
   return (PyObject *)py_rho;
-- 
2.43.0


From f96e83dcea2b03399f2a51e39c524aaef684db52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 09/45] fix: validate the arrays given to the native LRMES
 simulation

It reinterpreted whatever object it was given as an array of doubles.
---
 src/frds/measures/measures_module.cpp | 29 ++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/frds/measures/measures_module.cpp b/src/frds/measures/measures_module.cpp
index 6356f96..ed67a49 100644
--- a/src/frds/measures/measures_module.cpp
+++ b/src/frds/measures/measures_module.cpp
@@ -26,11 +26,28 @@ static PyObject *lrmes_simulation_wrapper(PyObject *self, PyObject *args) {
   double mu_i, omega_i, alpha_i, gamma_i, beta_i;
   double mu_m, omega_m, alpha_m, gamma_m, beta_m;
 
-  if (!PyArg_ParseTuple(args, "OddddddddOdddddddddd", &innovation, &C,
-                        &firm_var, &mkt_var, &firm_resid, &mkt_resid, &a, &b,
-                        &rho, &Q_bar, &mu_i, &omega_i, &alpha_i, &gamma_i,
-                        &beta_i, &mu_m, &omega_m, &alpha_m, &gamma_m,
-                        &beta_m)) {
+  if (!PyArg_ParseTuple(args, "O!ddddddddO!dddddddddd", &PyArray_Type,
+                        &innovation, &C, &firm_var, &mkt_var, &firm_resid,
+                        &mkt_resid, &a, &b, &rho, &PyArray_Type, &Q_bar, &mu_i,
+                        &omega_i, &alpha_i, &gamma_i, &beta_i, &mu_m, &omega_m,
+                        &alpha_m, &gamma_m, &beta_m)) {
+    return NULL;
+  }
+  if (PyArray_NDIM(innovation) != 2 || PyArray_DIM(innovation, 1) != 2 ||
+      PyArray_NDIM(Q_bar) != 2 || PyArray_DIM(Q_bar, 0) != 2 ||
+      PyArray_DIM(Q_bar, 1) != 2) {
+    PyErr_SetString(PyExc_ValueError, "Invalid array dimensions");
+    return NULL;
+  }
+  innovation = (PyArrayObject *)PyArray_FROM_OTF(
+      (PyObject *)innovation, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
+  if (innovation == NULL) {
+    return NULL;
+  }
+  Q_bar = (PyArrayObject *)PyArray_FROM_OTF((PyObject *)Q_bar, NPY_DOUBLE,
+                                            NPY_ARRAY_IN_ARRAY);
+  if (Q_bar == NULL) {
+    Py_DECREF(innovation);
     return NULL;
   }
 
@@ -40,6 +57,8 @@ static PyObject *lrmes_simulation_wrapper(PyObject *self, PyObject *args) {
       simulation(innovation, C, firm_var, mkt_var, firm_resid, mkt_resid, a, b,
                  rho, Q_bar, mu_i, omega_i, alpha_i, gamma_i, beta_i, mu_m,
                  omega_m, alpha_m, gamma_m, beta_m);
+  Py_DECREF(innovation);
+  Py_DECREF(Q_bar);
 
   return Py_BuildValue("db", firmret, systemic_event);
 }
-- 
2.43.0


From 7fa1cc062e065cabc719effb9f6da953ceea3b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 10/45] fix: use the correlation matrix of the standardised
 residuals in native DCC

The documentation, the Python implementation and the LRMES simulation take
Q_bar to be the sample correlation matrix; the native code used uncentred second
moments, so results depended on whether the extension was built.
---
 src/frds/algorithms/utils/mgarch.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/frds/algorithms/utils/mgarch.hpp b/src/frds/algorithms/utils/mgarch.hpp
index 7db5f1f..1654a71 100644
--- a/src/frds/algorithms/utils/mgarch.hpp
+++ b/src/frds/algorithms/utils/mgarch.hpp
@@ -26,16 +26,21 @@ std::vector<double> conditional_correlations(double a, double b,
   }
 
   // Compute Q_bar (correlation matrix)
-  // Since z1 z2 have zero mean, covariance matrix is same as correlation matrix
+  // z1 z2 have zero mean and unit variance only approximately
+  double mean1 = 0.0, mean2 = 0.0;
+  for (int t = 0; t < T; ++t) {
+    mean1 += z1[t] / T;
+    mean2 += z2[t] / T;
+  }
   double q_11_bar = 0.0, q_12_bar = 0.0, q_22_bar = 0.0;
   for (int t = 0; t < T; ++t) {
-    q_11_bar += z1[t] * z1[t];
-    q_12_bar += z1[t] * z2[t];
-    q_22_bar += z2[t] * z2[t];
+    q_11_bar += (z1[t] - mean1) * (z1[t] - mean1);
+    q_12_bar += (z1[t] - mean1) * (z2[t] - mean2);
+    q_22_bar += (z2[t] - mean2) * (z2[t] - mean2);
   }
-  q_11_bar /= T;
-  q_12_bar /= T;
-  q_22_bar /= T;
+  q_12_bar /= std::sqrt(q_11_bar * q_22_bar);
+  q_11_bar = 1.0;
+  q_22_bar = 1.0;
 
   // Initialize q11, q12, q22
   std::vector<double> q11(T);
-- 
2.43.0


From 90c680908c3edac0945c9594ed380f3b41ee69c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 11/45] fix: return the parameters when an estimated GARCH
 model is fitted again

GARCHModel.fit() returned None the second time, and GJRGARCHModel.fit()
re-estimated from scratch on every call, which GJRGARCHModel_DCC makes once per
likelihood evaluation.
---
 src/frds/algorithms/_garch.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index 9857305..d5911dd 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -56,7 +56,7 @@ class GARCHModel:
         """
         # No repeated estimation?
         if self.estimation_success:
-            return
+            return self.parameters
 
         starting_vals = self.preparation()
 
@@ -359,6 +359,10 @@ class GJRGARCHModel(GARCHModel):
         Returns:
             List[float]: [mu, omega, alpha, gamma, beta, loglikelihood]
         """
+        # No repeated estimation?
+        if self.estimation_success:
+            return self.parameters
+
         starting_vals = self.preparation()
 
         bounds = [
-- 
2.43.0


From 6079f1d7c6877a05115e390d02e2cbfd47e8d441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 12/45] fix: start GARCH estimation from the best point of the
 grid

starting_values() documents returning the combination with the highest
log-likelihood, but compared the negated log-likelihood and never updated the
best value, so it always returned the last grid point; the optimiser then often
stopped far below the likelihood of other grid points.
---
 src/frds/algorithms/_garch.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index d5911dd..fd46c4a 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -229,7 +229,9 @@ class GARCHModel:
             sigma2 = self.compute_variance(
                 params, resids, self.backcast_value, self.var_bounds
             )
-            if -self.loglikelihood(resids, sigma2) > max_likelihood:
+            likelihood = self.loglikelihood(resids, sigma2)
+            if likelihood > max_likelihood:
+                max_likelihood = likelihood
                 initial_params = params
         return initial_params
 
@@ -497,7 +499,9 @@ class GJRGARCHModel(GARCHModel):
             omega = var * (1 - p)
             params = [omega, alpha, gamma, beta]
             sigma2 = self.compute_variance(params, resids, backcast, var_bounds)
-            if -self.loglikelihood(resids, sigma2) > max_likelihood:
+            likelihood = self.loglikelihood(resids, sigma2)
+            if likelihood > max_likelihood:
+                max_likelihood = likelihood
                 initial_params = params
         return initial_params
 
-- 
2.43.0


From 4f3880d7be69581c1a90a4892d27940d8e930ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 13/45] fix: start DCC estimation from the best point of the
 grid

The best log-likelihood found so far was never recorded, so the last grid point
was returned.
---
 src/frds/algorithms/_mgarch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/frds/algorithms/_mgarch.py b/src/frds/algorithms/_mgarch.py
index c2c8a14..f38fdf3 100644
--- a/src/frds/algorithms/_mgarch.py
+++ b/src/frds/algorithms/_mgarch.py
@@ -313,6 +313,7 @@ class GARCHModel_DCC(GARCHModel_CCC):
                 continue
             ll = -self.loglikelihood_model([a, b])
             if ll > max_ll:
+                max_ll = ll
                 initial_values = [a, b]
         return initial_values
 
-- 
2.43.0


From 1cca7baeb282e5128a569e48d450d66148c40030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 14/45] fix: aggregate SRISK of a single firm

For one firm SRISK is a Python float, which has no clip method.
---
 src/frds/measures/_srisk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frds/measures/_srisk.py b/src/frds/measures/_srisk.py
index b709b6c..1788e91 100644
--- a/src/frds/measures/_srisk.py
+++ b/src/frds/measures/_srisk.py
@@ -94,4 +94,4 @@ class SRISK:
         if not aggregate_srisk:
             return srisk
         else:
-            return np.sum(srisk.clip(min=0.0))
+            return np.sum(np.clip(srisk, 0.0, None))
-- 
2.43.0


From f2fc160f8cc36aa63d596a81f9690803438959dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 15/45] fix: keep the largest losses in the distress insurance
 premium

Losses in the last hundredth below the maximum were put one past the end of
the loss distribution: with one bank about every fifth estimate raised an
IndexError.
---
 src/frds/measures/_distress_insurance_premium.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/frds/measures/_distress_insurance_premium.py b/src/frds/measures/_distress_insurance_premium.py
index 37dea74..9bacd45 100644
--- a/src/frds/measures/_distress_insurance_premium.py
+++ b/src/frds/measures/_distress_insurance_premium.py
@@ -67,7 +67,8 @@ class DistressInsurancePremium:
         intervals = 100
         loss_given_default *= intervals
 
-        prob_losses = np.zeros(n_banks * intervals)
+        # including the slot of the maximum losses themselves
+        prob_losses = np.zeros(n_banks * intervals + 1)
         for i in range(n_banks):
             for j in range(n_simulations):
                 # Multiply losses_given_default(i,j) by intervals to find the right slot
@@ -83,7 +84,7 @@ class DistressInsurancePremium:
         prob_great_losses = np.sum(prob_losses[pct_threshold * n_banks :])
 
         exp_losses = np.dot(
-            np.array(range(pct_threshold * n_banks, intervals * n_banks)),
+            np.array(range(pct_threshold * n_banks, intervals * n_banks + 1)),
             prob_losses[pct_threshold * n_banks :],
         ) / (100 * prob_great_losses)
 
-- 
2.43.0


From 6f89d3a22d54bc69c5f5e049225c3218c921564d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 16/45] fix: use the requested threshold in the distress
 insurance premium

int(0.29 * 100) is 28, so some percentages were rounded down by a whole point.
---
 src/frds/measures/_distress_insurance_premium.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frds/measures/_distress_insurance_premium.py b/src/frds/measures/_distress_insurance_premium.py
index 9bacd45..0e7d2e6 100644
--- a/src/frds/measures/_distress_insurance_premium.py
+++ b/src/frds/measures/_distress_insurance_premium.py
@@ -78,7 +78,8 @@ class DistressInsurancePremium:
 
         # Convert to probabilities
         prob_losses = prob_losses / n_simulations
-        pct_threshold = int(default_threshold * 100)
+        # 0.29 * 100 is 28.999999999999996
+        pct_threshold = int(round(default_threshold * 100, 8))
 
         # Find the probability that the losses are great than 0.15 the total liabilities i.e. > 0.15*N
         prob_great_losses = np.sum(prob_losses[pct_threshold * n_banks :])
-- 
2.43.0


From 68bf036fd7e450d401ae59316e40456a81ad4db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 17/45] fix: a distress insurance premium without great losses
 is 0, not NaN

---
 src/frds/measures/_distress_insurance_premium.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/frds/measures/_distress_insurance_premium.py b/src/frds/measures/_distress_insurance_premium.py
index 0e7d2e6..4fdee24 100644
--- a/src/frds/measures/_distress_insurance_premium.py
+++ b/src/frds/measures/_distress_insurance_premium.py
@@ -84,6 +84,9 @@ class DistressInsurancePremium:
         # Find the probability that the losses are great than 0.15 the total liabilities i.e. > 0.15*N
         prob_great_losses = np.sum(prob_losses[pct_threshold * n_banks :])
 
+        if prob_great_losses == 0:
+            return 0.0
+
         exp_losses = np.dot(
             np.array(range(pct_threshold * n_banks, intervals * n_banks + 1)),
             prob_losses[pct_threshold * n_banks :],
-- 
2.43.0


From 380b861a845ef38d092f39aa348ef60eb54634bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 18/45] fix: absorption ratio of rank-deficient and
 single-asset panels

The general eigenvalue solver returns complex numbers for singular covariance
matrices, which cannot be sorted (or gave a complex ratio), and np.cov returns a
scalar for one asset.
---
 src/frds/measures/_absorption_ratio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frds/measures/_absorption_ratio.py b/src/frds/measures/_absorption_ratio.py
index 14f88e4..90cc690 100644
--- a/src/frds/measures/_absorption_ratio.py
+++ b/src/frds/measures/_absorption_ratio.py
@@ -38,7 +38,7 @@ class AbsorptionRatio:
         Returns:
             np.ndarray: covariance of asset returns
         """
-        return np.cov(self.asset_returns)
+        return np.atleast_2d(np.cov(self.asset_returns))
 
     @cached_property
     def eigvals(self) -> np.ndarray:
@@ -48,4 +48,4 @@ class AbsorptionRatio:
         Returns:
             np.ndarray: eigenvalues
         """
-        return np.linalg.eigvals(self.asset_covariance)
+        return np.linalg.eigvalsh(self.asset_covariance)
-- 
2.43.0


From bfbd3bc219925efa26470297f49bef63a8e35af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 19/45] fix: reset the success flag when PIN is estimated again

The parameters were reset but estimation_success kept the result of the
previous estimate, so a failed re-estimation (the EHO likelihood overflows for
active stocks) reported success with NaN parameters.
---
 src/frds/measures/_probability_of_informed_trading.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/frds/measures/_probability_of_informed_trading.py b/src/frds/measures/_probability_of_informed_trading.py
index b7e804b..e1b3f04 100644
--- a/src/frds/measures/_probability_of_informed_trading.py
+++ b/src/frds/measures/_probability_of_informed_trading.py
@@ -73,6 +73,7 @@ class PIN:
 
         # Reset params
         self.parameters = type(self).Parameters()
+        self.estimation_success = False
         if method == "EHO2010":
             func = self.loglikelihood_EHO2010
         elif method == "LK2011":
-- 
2.43.0


From 6239ec947a0de9e90fcaffe4aa9ccd24e54ab49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 20/45] fix: honour trade directions that are not numpy arrays

Lists and Series of directions were silently ignored and the measure without
directions was returned, although every other argument may be a list or Series.
---
 src/frds/measures/price_impact.py | 3 ++-
 src/frds/measures/spread.py       | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/frds/measures/price_impact.py b/src/frds/measures/price_impact.py
index 40b8d53..af8b5f9 100644
--- a/src/frds/measures/price_impact.py
+++ b/src/frds/measures/price_impact.py
@@ -29,7 +29,7 @@ def simple_price_impact(
     midpoint = np.asarray(midpoint)
     volume = np.asarray(volume)
     assert midpoint_later.shape == midpoint.shape == volume.shape
-    if not isinstance(trade_direction, np.ndarray):
+    if trade_direction is None:
         # No trade direction
         if pct_spread:
             spread = 2 * np.absolute(midpoint_later - midpoint) / midpoint * 100
@@ -37,6 +37,7 @@ def simple_price_impact(
             spread = 2 * np.absolute(np.log(midpoint_later) - np.log(midpoint))
     else:
         # Use trade direction
+        trade_direction = np.asarray(trade_direction)
         assert midpoint.shape == trade_direction.shape
         if pct_spread:
             spread = 2 * trade_direction * (midpoint_later - midpoint) / midpoint * 100
diff --git a/src/frds/measures/spread.py b/src/frds/measures/spread.py
index 30504c2..ab90809 100644
--- a/src/frds/measures/spread.py
+++ b/src/frds/measures/spread.py
@@ -50,7 +50,7 @@ def effective_spread(
     midpoint = np.asarray(midpoint)
     volume = np.asarray(volume)
     assert price.shape == midpoint.shape == volume.shape
-    if not isinstance(trade_direction, np.ndarray):
+    if trade_direction is None:
         # No trade direction
         if pct_spread:
             spread = 2 * np.absolute(price - midpoint) / midpoint * 100
@@ -58,6 +58,7 @@ def effective_spread(
             spread = 2 * np.absolute(np.log(price) - np.log(midpoint))
     else:
         # Use trade direction
+        trade_direction = np.asarray(trade_direction)
         assert price.shape == trade_direction.shape
         if pct_spread:
             spread = 2 * trade_direction * (price - midpoint) / midpoint * 100
@@ -98,7 +99,7 @@ def realized_spread(
     midpoint = np.asarray(midpoint)
     volume = np.asarray(volume)
     assert price.shape == midpoint_later.shape == midpoint.shape == volume.shape
-    if not isinstance(trade_direction, np.ndarray):
+    if trade_direction is None:
         # No trade direction
         if pct_spread:
             spread = 2 * np.absolute(price - midpoint_later) / midpoint * 100
@@ -106,6 +107,7 @@ def realized_spread(
             spread = 2 * np.absolute(np.log(price) - np.log(midpoint_later))
     else:
         # Use trade direction
+        trade_direction = np.asarray(trade_direction)
         assert price.shape == trade_direction.shape
         if pct_spread:
             spread = 2 * trade_direction * (price - midpoint_later) / midpoint * 100
-- 
2.43.0


From 4cae743dba82226be6dc11bd914c219063391873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 21/45] fix: do not hand out the cached stock returns for
 modification

Every reader got the same cached frame, so an in-place edit by one changed the
data set for all later ones.
---
 src/frds/datasets/_stocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frds/datasets/_stocks.py b/src/frds/datasets/_stocks.py
index 2a210ff..a60998d 100644
--- a/src/frds/datasets/_stocks.py
+++ b/src/frds/datasets/_stocks.py
@@ -38,7 +38,7 @@ class _StockReturns(metaclass=SingletonMeta):
         path = f"{os.path.join(_current_directory, 'stocks_us.csv.zip')}"
         if self._stocks_us is None:
             self._stocks_us = pd.read_csv(path, index_col=['Date'], parse_dates=['Date'])
-        return self._stocks_us
+        return self._stocks_us.copy()
 
 
 StockReturns = _StockReturns()
-- 
2.43.0


From a68b3d2bada1b9ff6990a110ccdf041889309ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 22/45] fix: make the modified Merton model importable

frds.measures.option_price no longer exists; blsprice is exported by
frds.measures.
---
 src/frds/measures/modified_merton/find_face_value_indiv.py | 2 +-
 src/frds/measures/modified_merton/merton_solution.py       | 2 +-
 src/frds/measures/modified_merton/mod_merton_simulation.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/frds/measures/modified_merton/find_face_value_indiv.py b/src/frds/measures/modified_merton/find_face_value_indiv.py
index 19de9fa..670d313 100644
--- a/src/frds/measures/modified_merton/find_face_value_indiv.py
+++ b/src/frds/measures/modified_merton/find_face_value_indiv.py
@@ -1,5 +1,5 @@
 import numpy as np
-from frds.measures.option_price import blsprice
+from frds.measures import blsprice
 
 
 def find_face_value_indiv(
diff --git a/src/frds/measures/modified_merton/merton_solution.py b/src/frds/measures/modified_merton/merton_solution.py
index d844421..fc1d910 100644
--- a/src/frds/measures/modified_merton/merton_solution.py
+++ b/src/frds/measures/modified_merton/merton_solution.py
@@ -3,7 +3,7 @@ from scipy.optimize import fsolve
 from scipy.stats import norm
 from typing import Tuple
 
-from frds.measures.option_price import blsprice
+from frds.measures import blsprice
 
 
 def merton_solution(
diff --git a/src/frds/measures/modified_merton/mod_merton_simulation.py b/src/frds/measures/modified_merton/mod_merton_simulation.py
index 07c3835..1cc1622 100644
--- a/src/frds/measures/modified_merton/mod_merton_simulation.py
+++ b/src/frds/measures/modified_merton/mod_merton_simulation.py
@@ -7,7 +7,7 @@ from scipy.stats import norm
 
 import matplotlib.pyplot as plt
 
-from frds.measures.option_price import blsprice
+from frds.measures import blsprice
 from frds.measures.modified_merton.merton_solution import merton_solution
 from frds.measures.modified_merton.mod_merton_computation import mod_merton_computation
 from frds.measures.modified_merton.mod_merton_create_lookup import (
-- 
2.43.0


From e69a6f40be7e65784ad6202e778f306930f519bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 23/45] fix: solve the contingent claim analysis equations from
 a sensible start

The solver works on square roots but was started from equity and volatility
themselves, so for small firms, low leverage or high leverage it stopped
anywhere, and its failure was ignored: the prices returned did not satisfy the
equations. Start from equity plus discounted debt and report failure.
---
 src/frds/measures/_contingent_claim_analysis.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/frds/measures/_contingent_claim_analysis.py b/src/frds/measures/_contingent_claim_analysis.py
index f2d955b..6f9fc9f 100644
--- a/src/frds/measures/_contingent_claim_analysis.py
+++ b/src/frds/measures/_contingent_claim_analysis.py
@@ -47,9 +47,12 @@ class ContingentClaimAnalysis:
 
         # We need to solve a system of non-linear equations for asset price and asset volatility
         # x = [equity, volatility]
-        x = fsolve(
+        # Initial values are (the square roots of) equity plus discounted debt and
+        # the equity volatility scaled down accordingly
+        init_asset = equity + default_barrier * exp(-risk_free_rate * time_to_maturity)
+        x, _, ier, msg = fsolve(
             cca_func,
-            (equity, volatility),  # initial values set to equity and its volatility
+            (sqrt(init_asset), sqrt(volatility * equity / init_asset)),
             args=(
                 equity,
                 volatility,
@@ -57,7 +60,10 @@ class ContingentClaimAnalysis:
                 default_barrier,
                 time_to_maturity,
             ),
+            full_output=True,
         )
+        if ier != 1:
+            raise RuntimeError(f"Failed to solve for asset value and volatility: {msg}")
 
         # We solved for (asset price)^1/2 and (asset volatility)^1/2 to ensure the
         # values are positive. We recover asset price and asset volatility here.
-- 
2.43.0


From 6a23083c765ba670c7b1e89b048b8a48085d8989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 24/45] fix: compute variances in double precision whatever the
 type of the residuals

np.zeros_like() gave GJR-GARCH forecasts (and, without the extensions, all
variances) the integer or single precision type of the residuals.
---
 src/frds/algorithms/_garch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index fd46c4a..b2cf9b7 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -191,7 +191,7 @@ class GARCHModel:
         if USE_CPP_EXTENSION:
             return ext.compute_garch_variance(params, resids, backcast, var_bounds)
         omega, alpha, beta = params
-        sigma2 = np.zeros_like(resids)
+        sigma2 = np.zeros_like(resids, dtype=np.float64)
         sigma2[0] = omega + (alpha + beta) * backcast
         for t in range(1, len(resids)):
             sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
@@ -433,7 +433,7 @@ class GJRGARCHModel(GARCHModel):
             return ext.compute_gjrgarch_variance(params, resids, backcast, var_bounds)
         # fmt: off
         omega, alpha, gamma, beta = params
-        sigma2 = np.zeros_like(resids)
+        sigma2 = np.zeros_like(resids, dtype=np.float64)
         sigma2[0] = omega + (alpha + gamma/2 + beta) * backcast
         for t in range(1, len(resids)):
             sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
@@ -459,7 +459,7 @@ class GJRGARCHModel(GARCHModel):
         """
         # fmt: off
         omega, alpha, gamma, beta = params.omega, params.alpha, params.gamma, params.beta
-        sigma2 = np.zeros_like(resids)
+        sigma2 = np.zeros_like(resids, dtype=np.float64)
         sigma2[0] = initial_variance
         for t in range(1, len(resids)):
             sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
-- 
2.43.0


From d7d56758aa03af8c8af1a4ca14c2e1f0eaed9c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:06 +0000
Subject: [PATCH 25/45] fix: keep the order arrival rates of PIN away from zero
 during estimation

---
 src/frds/measures/_probability_of_informed_trading.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frds/measures/_probability_of_informed_trading.py b/src/frds/measures/_probability_of_informed_trading.py
index e1b3f04..68f5857 100644
--- a/src/frds/measures/_probability_of_informed_trading.py
+++ b/src/frds/measures/_probability_of_informed_trading.py
@@ -66,8 +66,8 @@ class PIN:
         bounds = [
             (0.0, 1.0),  # Bounds for alpha
             (0.0, 1.0),  # Boudns for delta
-            (0.0, np.inf),  # Lower bound for eB
-            (0.0, np.inf),  # Lower bound for eS
+            (1e-6, np.inf),  # Lower bound for eB, > 0 as its log is taken
+            (1e-6, np.inf),  # Lower bound for eS, > 0 as its log is taken
             (0.0, np.inf),  # Lower bound for mu
         ]
 
-- 
2.43.0


From e97f5b1ef651af24e186a89adf5c280f4e174384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:39 +0000
Subject: [PATCH 26/45] fix: compute spreads and price impact in double
 precision for integer data

---
 src/frds/measures/price_impact.py |  9 +++++----
 src/frds/measures/spread.py       | 22 +++++++++++-----------
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/frds/measures/price_impact.py b/src/frds/measures/price_impact.py
index af8b5f9..31f3c09 100644
--- a/src/frds/measures/price_impact.py
+++ b/src/frds/measures/price_impact.py
@@ -25,9 +25,10 @@ def simple_price_impact(
     Returns:
         float: simple price impact
     """
-    midpoint_later = np.asarray(midpoint_later)
-    midpoint = np.asarray(midpoint)
-    volume = np.asarray(volume)
+    price = np.asarray(price, dtype=float)
+    midpoint_later = np.asarray(midpoint_later, dtype=float)
+    midpoint = np.asarray(midpoint, dtype=float)
+    volume = np.asarray(volume, dtype=float)
     assert midpoint_later.shape == midpoint.shape == volume.shape
     if trade_direction is None:
         # No trade direction
@@ -37,7 +38,7 @@ def simple_price_impact(
             spread = 2 * np.absolute(np.log(midpoint_later) - np.log(midpoint))
     else:
         # Use trade direction
-        trade_direction = np.asarray(trade_direction)
+        trade_direction = np.asarray(trade_direction, dtype=float)
         assert midpoint.shape == trade_direction.shape
         if pct_spread:
             spread = 2 * trade_direction * (midpoint_later - midpoint) / midpoint * 100
diff --git a/src/frds/measures/spread.py b/src/frds/measures/spread.py
index ab90809..4aa9166 100644
--- a/src/frds/measures/spread.py
+++ b/src/frds/measures/spread.py
@@ -13,8 +13,8 @@ def quoted_spread(bid: np.ndarray, ask: np.ndarray, pct_spread=True) -> float:
     Returns:
         float: quoted spread
     """
-    bid = np.asarray(bid)
-    ask = np.asarray(ask)
+    bid = np.asarray(bid, dtype=float)
+    ask = np.asarray(ask, dtype=float)
     assert bid.shape == ask.shape
     if pct_spread:
         midpt = (bid + ask) / 2
@@ -46,9 +46,9 @@ def effective_spread(
     Returns:
         float: effective spread
     """
-    price = np.asarray(price)
-    midpoint = np.asarray(midpoint)
-    volume = np.asarray(volume)
+    price = np.asarray(price, dtype=float)
+    midpoint = np.asarray(midpoint, dtype=float)
+    volume = np.asarray(volume, dtype=float)
     assert price.shape == midpoint.shape == volume.shape
     if trade_direction is None:
         # No trade direction
@@ -58,7 +58,7 @@ def effective_spread(
             spread = 2 * np.absolute(np.log(price) - np.log(midpoint))
     else:
         # Use trade direction
-        trade_direction = np.asarray(trade_direction)
+        trade_direction = np.asarray(trade_direction, dtype=float)
         assert price.shape == trade_direction.shape
         if pct_spread:
             spread = 2 * trade_direction * (price - midpoint) / midpoint * 100
@@ -94,10 +94,10 @@ def realized_spread(
     Returns:
         float: realized spread
     """
-    price = np.asarray(price)
-    midpoint_later = np.asarray(midpoint_later)
-    midpoint = np.asarray(midpoint)
-    volume = np.asarray(volume)
+    price = np.asarray(price, dtype=float)
+    midpoint_later = np.asarray(midpoint_later, dtype=float)
+    midpoint = np.asarray(midpoint, dtype=float)
+    volume = np.asarray(volume, dtype=float)
     assert price.shape == midpoint_later.shape == midpoint.shape == volume.shape
     if trade_direction is None:
         # No trade direction
@@ -107,7 +107,7 @@ def realized_spread(
             spread = 2 * np.absolute(np.log(price) - np.log(midpoint_later))
     else:
         # Use trade direction
-        trade_direction = np.asarray(trade_direction)
+        trade_direction = np.asarray(trade_direction, dtype=float)
         assert price.shape == trade_direction.shape
         if pct_spread:
             spread = 2 * trade_direction * (price - midpoint_later) / midpoint * 100
-- 
2.43.0


From e83f276a2f139f1e19f5fd99f1d186b807635d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 27/45] fix: no wrap-around in order-book measures for unsigned
 integer data

---
 src/frds/measures/lob_slope.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/frds/measures/lob_slope.py b/src/frds/measures/lob_slope.py
index 4793149..968473c 100644
--- a/src/frds/measures/lob_slope.py
+++ b/src/frds/measures/lob_slope.py
@@ -95,7 +95,9 @@ def DGGW_bid_slope(
     assert k > 1  # at least two levels
     assert len(mid_point.shape) == 1 and n == mid_point.shape[0]
 
-    slope = np.sum(bid_size, axis=1) / np.abs((bid_price_highest_level - mid_point))
+    # prices may be unsigned integers, whose differences would wrap around
+    distance = np.subtract(bid_price_highest_level, mid_point, dtype=float)
+    slope = np.sum(bid_size, axis=1) / np.abs(distance)
     return np.nanmean(slope)
 
 
@@ -114,6 +116,9 @@ def DGGW_bid_side_slope_difference(
     assert len(bid_size.shape) > 1
     n, k = bid_size.shape
     assert k > 1  # at least two levels
+    # sizes may be unsigned integers, whose differences would wrap around
+    bid_size = np.asarray(bid_size, dtype=float)
+    bid_price = np.asarray(bid_price, dtype=float)
     # fmt: off
     slope_h = (bid_size[:,4] - bid_size[:,2]) / np.abs(bid_price[:,4] - bid_price[:,2])
     slope_l = (bid_size[:,2] - bid_size[:,0]) / np.abs(bid_price[:,2] - bid_price[:,0])
@@ -165,7 +170,7 @@ def DGGW_scaled_depth_difference(bid_size: np.ndarray, ask_size: np.ndarray) ->
         >>> 0.2697934067000831
     """
     assert bid_size.shape == ask_size.shape
-    bid_depth = np.sum(bid_size, axis=1)
-    ask_depth = np.sum(ask_size, axis=1)
+    bid_depth = np.sum(bid_size, axis=1, dtype=float)
+    ask_depth = np.sum(ask_size, axis=1, dtype=float)
     sdd = 2 * (ask_depth - bid_depth) / (ask_depth + bid_depth)
     return np.nanmean(sdd)
-- 
2.43.0


From 491bc3f729db3caafc03337af078a3910ad18e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:53 +0000
Subject: [PATCH 28/45] fix: penalise negative estimates in the Merton error
 vector

---
 src/frds/measures/modified_merton/merton_solution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frds/measures/modified_merton/merton_solution.py b/src/frds/measures/modified_merton/merton_solution.py
index fc1d910..3a9ec5e 100644
--- a/src/frds/measures/modified_merton/merton_solution.py
+++ b/src/frds/measures/modified_merton/merton_solution.py
@@ -53,7 +53,7 @@ def merton_solution(
     # A includes PV(div), but B-S derivative prices don't
     # Merton asset volatility too high
 
-    penalty = esig * sig**2 + eA * A**2
+    penalty = esig * x[1] ** 2 + eA * x[0] ** 2
     err = (E - C + penalty, sigE - v + penalty)
 
     return err
-- 
2.43.0


From 66d5fb441c75a392d05becb2cd12f44e6bed0fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:15 +0000
Subject: [PATCH 29/45] fix: make the single-cohort solution usable as an
 objective function

---
 .../modified_merton/mod_single_cohort_solution.py         | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/frds/measures/modified_merton/mod_single_cohort_solution.py b/src/frds/measures/modified_merton/mod_single_cohort_solution.py
index e7c5ee3..b226a4e 100644
--- a/src/frds/measures/modified_merton/mod_single_cohort_solution.py
+++ b/src/frds/measures/modified_merton/mod_single_cohort_solution.py
@@ -1,15 +1,17 @@
+import numpy as np
+
 from frds.measures.modified_merton.mod_single_cohort_computation import (
     mod_single_cohort_computation,
 )
 
 
 def mod_single_cohort_solution(b, param, N, Nsim2, E, sigE):
-    fs = b[0]
-    param[2] = b[1]
+    fs = np.array([b[0]])
+    param = [*param[:2], b[1], *param[3:]]
 
     # fmt: off
     Lt, Bt, Et, LH, BH, EH, sigEt, mFt, default, mdef, face, FH, Gt, mu, F, sigLt = mod_single_cohort_computation(fs, param, N, Nsim2)
     # fmt: on
-    err = [E - Et, sigE - sigEt]
+    err = [E - Et[0], sigE - sigEt[0]]
 
     return err
-- 
2.43.0


From 922d8d041c1ae21f21e141edf316014b03d7aeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:36 +0000
Subject: [PATCH 30/45] fix: do not share the labels of the cached stock
 returns

---
 src/frds/datasets/_stocks.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/frds/datasets/_stocks.py b/src/frds/datasets/_stocks.py
index a60998d..70c41fc 100644
--- a/src/frds/datasets/_stocks.py
+++ b/src/frds/datasets/_stocks.py
@@ -38,7 +38,11 @@ class _StockReturns(metaclass=SingletonMeta):
         path = f"{os.path.join(_current_directory, 'stocks_us.csv.zip')}"
         if self._stocks_us is None:
             self._stocks_us = pd.read_csv(path, index_col=['Date'], parse_dates=['Date'])
-        return self._stocks_us.copy()
+        data = self._stocks_us.copy()
+        # copies of a DataFrame share the data of their labels
+        data.index = data.index.copy(deep=True)
+        data.columns = data.columns.copy(deep=True)
+        return data
 
 
 StockReturns = _StockReturns()
-- 
2.43.0


From 1740854477bc241681e078849b039e4f30a178c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:22 +0000
Subject: [PATCH 31/45] fix: raise an exception when the isolation forest runs
 out of memory or threads

---
 .../isolation_forest/IsolationForest.cpp      | 28 ++++++++++++++--
 .../isolation_forest/IsolationForest.hpp      |  4 +++
 .../isolation_forest/iforest_module.cpp       | 32 +++++++++++++++----
 3 files changed, 55 insertions(+), 9 deletions(-)

diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.cpp b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
index ebacdc2..83e7ed9 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.cpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
@@ -150,8 +150,28 @@ double IsolationForest::pathLength(size_t const &ob,
   }
 }
 
+// Run `job` in a new thread, or in this one if no thread can be started.
+// An exception must not leave a thread, so it is kept to be thrown again later.
+template <class Job>
+std::thread IsolationForest::startWorker(Job job) {
+  auto guarded = [this, job] {
+    try {
+      job();
+    } catch (...) {
+      std::lock_guard<std::mutex> guard(this->mylock);
+      if (!this->error) this->error = std::current_exception();
+    }
+  };
+  try {
+    return std::thread(guarded);
+  } catch (const std::exception &) {
+    guarded();
+    return std::thread();
+  }
+}
+
 std::thread IsolationForest::grow(const size_t start, const size_t jobs) {
-  return std::thread([this, start, jobs] {
+  return this->startWorker([this, start, jobs] {
     // Make a vector from 0 to (nObs-1) representing the indices of observations
     std::vector<size_t> obs(this->nObs);
     std::iota(obs.begin(), obs.end(), 0);
@@ -197,11 +217,13 @@ void IsolationForest::grow() {
     if (t.joinable()) t.join();
   }
   Py_END_ALLOW_THREADS
+
+  if (this->error) std::rethrow_exception(this->error);
 }
 
 std::thread IsolationForest::calAnomalyScores(const size_t &start_ob,
                                               const size_t &n) {
-  return std::thread([this, start_ob, n] {
+  return this->startWorker([this, start_ob, n] {
     for (size_t i = start_ob; i < start_ob + n; i++) {
       // no need to lock because the A-score of an observation is calculated in
       // one thread
@@ -233,4 +255,6 @@ void IsolationForest::calculateAnomalyScores() {
     if (t.joinable()) t.join();
   }
   Py_END_ALLOW_THREADS
+
+  if (this->error) std::rethrow_exception(this->error);
 }
\ No newline at end of file
diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.hpp b/src/frds/algorithms/isolation_forest/IsolationForest.hpp
index bbd044a..423c65c 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.hpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.hpp
@@ -3,6 +3,7 @@
 
 #define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
 #include <cstdint>
+#include <exception>
 #include <memory>
 #include <mutex>
 #include <random>
@@ -54,8 +55,11 @@ class IsolationForest {
   const unsigned int workers = std::thread::hardware_concurrency();
   std::vector<std::unique_ptr<IsolationTree>> trees;
   std::mutex mylock;
+  std::exception_ptr error;  // the first exception thrown in a worker
 
   /* methods */
+  template <class Job>
+  std::thread startWorker(Job job);
   inline double averagePathLength(size_t const &nObs);
   double pathLength(size_t const &ob,
                     std::unique_ptr<IsolationTree::Node> &node, int length = 0);
diff --git a/src/frds/algorithms/isolation_forest/iforest_module.cpp b/src/frds/algorithms/isolation_forest/iforest_module.cpp
index 5315f89..bac0803 100644
--- a/src/frds/algorithms/isolation_forest/iforest_module.cpp
+++ b/src/frds/algorithms/isolation_forest/iforest_module.cpp
@@ -3,6 +3,8 @@
 #ifndef IFOREST_MODULE
 #define IFOREST_MODULE
 #endif
+#include <new>
+
 #include "IsolationForest.cpp"
 
 #ifndef NPY_NO_DEPRECATED_API
@@ -64,15 +66,31 @@ static PyObject *iforest_wrapper(PyObject *self, PyObject *args) {
   // number of obervations
   auto nObs = PyArray_DIM(num_arr, 1);
 
-  auto iforest =
-      IsolationForest(num_arr, char_arr, treeSize, forestSize, randomSeed);
+  // an exception must not leave this function
+  try {
+    auto iforest =
+        IsolationForest(num_arr, char_arr, treeSize, forestSize, randomSeed);
 
-  iforest.grow();
-  iforest.calculateAnomalyScores();
+    iforest.grow();
+    iforest.calculateAnomalyScores();
 
-  // write the ascores to the output array
-  for (npy_intp i = 0; i < nObs; i++) {
-    *(double *)PyArray_GETPTR1(outArr, i) = iforest.anomalyScores[i];
+    // write the ascores to the output array
+    for (npy_intp i = 0; i < nObs; i++) {
+      *(double *)PyArray_GETPTR1(outArr, i) = iforest.anomalyScores[i];
+    }
+  } catch (const std::bad_alloc &) {
+    PyErr_NoMemory();
+  } catch (const std::exception &e) {
+    PyErr_SetString(PyExc_RuntimeError, e.what());
+  }
+  if (PyErr_Occurred()) {
+    Py_DECREF(num_arr);
+    Py_DECREF(char_arr);
+#if NPY_API_VERSION >= 0x0000000c
+    PyArray_DiscardWritebackIfCopy(outArr);
+#endif
+    Py_DECREF(outArr);
+    return NULL;
   }
 
   Py_DECREF(num_arr);
-- 
2.43.0


From 1b8d455a58afaf5d0bfcebfe8dd4df4ec9276fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:22 +0000
Subject: [PATCH 32/45] fix: raise MemoryError instead of aborting in the
 variance and correlation recursions

---
 src/frds/algorithms/utils/garch.hpp        |  5 ++--
 src/frds/algorithms/utils/utils_module.cpp | 31 +++++++++++++++++++---
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/frds/algorithms/utils/garch.hpp b/src/frds/algorithms/utils/garch.hpp
index ae65ba6..ba9d72d 100644
--- a/src/frds/algorithms/utils/garch.hpp
+++ b/src/frds/algorithms/utils/garch.hpp
@@ -31,7 +31,7 @@ inline double bounds_check(double sigma2, double lower, double upper) {
 }
 
 void compute_garch_variance(double *sigma2, double *resids, double *var_bounds,
-                            int T, std::vector<double> params,
+                            int T, const std::vector<double> &params,
                             double backcast) {
   double omega = params[0];
   double alpha = params[1];
@@ -49,7 +49,8 @@ void compute_garch_variance(double *sigma2, double *resids, double *var_bounds,
 
 void compute_gjrgarch_variance(double *sigma2, double *resids,
                                double *var_bounds, int T,
-                               std::vector<double> params, double backcast) {
+                               const std::vector<double> &params,
+                               double backcast) {
   double omega = params[0];
   double alpha = params[1];
   double gamma = params[2];
diff --git a/src/frds/algorithms/utils/utils_module.cpp b/src/frds/algorithms/utils/utils_module.cpp
index 62d651b..3b1ed70 100644
--- a/src/frds/algorithms/utils/utils_module.cpp
+++ b/src/frds/algorithms/utils/utils_module.cpp
@@ -4,6 +4,8 @@
 #ifndef UTILS_MODULE
 #define UTILS_MODULE
 #endif
+#include <new>
+
 #include "garch.hpp"
 #include "mgarch.hpp"
 
@@ -119,8 +121,14 @@ static PyObject *compute_garch_variance_wrapper(PyObject *self,
   }
   PyObject *item;
   while ((item = PyIter_Next(iter))) {
-    params.push_back(PyFloat_AsDouble(item));
+    double param = PyFloat_AsDouble(item);
     Py_DECREF(item);
+    try {
+      params.push_back(param);
+    } catch (const std::bad_alloc &) {
+      PyErr_NoMemory();
+      break;
+    }
   }
   Py_DECREF(iter);
   if (PyErr_Occurred()) {
@@ -190,8 +198,14 @@ static PyObject *compute_gjrgarch_variance_wrapper(PyObject *self,
   }
   PyObject *item;
   while ((item = PyIter_Next(iter))) {
-    params.push_back(PyFloat_AsDouble(item));
+    double param = PyFloat_AsDouble(item);
     Py_DECREF(item);
+    try {
+      params.push_back(param);
+    } catch (const std::bad_alloc &) {
+      PyErr_NoMemory();
+      break;
+    }
   }
   Py_DECREF(iter);
   if (PyErr_Occurred()) {
@@ -269,12 +283,21 @@ static PyObject *dcc_conditional_correlations_wrapper(PyObject *self,
     }
   }
 
-  std::vector<double> rho = DCC::conditional_correlations(
-      a, b, arrays[0], arrays[1], arrays[2], arrays[3]);
+  std::vector<double> rho;
+  try {
+    rho = DCC::conditional_correlations(a, b, arrays[0], arrays[1], arrays[2],
+                                        arrays[3]);
+  } catch (const std::bad_alloc &) {
+    PyErr_NoMemory();
+  }
   for (PyArrayObject *array : arrays) {
     Py_DECREF(array);
   }
 
+  if (PyErr_Occurred()) {
+    return NULL;
+  }
+
   npy_intp dims[1] = {static_cast<npy_intp>(rho.size())};
   PyArrayObject *py_rho =
       (PyArrayObject *)PyArray_SimpleNew(1, dims, NPY_DOUBLE);
-- 
2.43.0


From c327ec7a952d90d6a79650de24230056137f90ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:22 +0000
Subject: [PATCH 33/45] fix: raise MemoryError instead of aborting in the LRMES
 simulation

---
 src/frds/measures/measures_module.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/frds/measures/measures_module.cpp b/src/frds/measures/measures_module.cpp
index ed67a49..edf7c43 100644
--- a/src/frds/measures/measures_module.cpp
+++ b/src/frds/measures/measures_module.cpp
@@ -3,6 +3,8 @@
 #ifndef UTILS_MODULE
 #define UTILS_MODULE
 #endif
+#include <new>
+
 #include "lrmes.hpp"
 
 #ifndef NPY_NO_DEPRECATED_API
@@ -53,12 +55,19 @@ static PyObject *lrmes_simulation_wrapper(PyObject *self, PyObject *args) {
 
   double firmret;
   bool systemic_event;
-  std::tie(firmret, systemic_event) =
-      simulation(innovation, C, firm_var, mkt_var, firm_resid, mkt_resid, a, b,
-                 rho, Q_bar, mu_i, omega_i, alpha_i, gamma_i, beta_i, mu_m,
-                 omega_m, alpha_m, gamma_m, beta_m);
+  try {
+    std::tie(firmret, systemic_event) =
+        simulation(innovation, C, firm_var, mkt_var, firm_resid, mkt_resid, a,
+                   b, rho, Q_bar, mu_i, omega_i, alpha_i, gamma_i, beta_i, mu_m,
+                   omega_m, alpha_m, gamma_m, beta_m);
+  } catch (const std::bad_alloc &) {
+    PyErr_NoMemory();
+  }
   Py_DECREF(innovation);
   Py_DECREF(Q_bar);
+  if (PyErr_Occurred()) {
+    return NULL;
+  }
 
   return Py_BuildValue("db", firmret, systemic_event);
 }
-- 
2.43.0


From 8258fa594b0884a6425f06a11c12a4ddf4c240fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:37 +0000
Subject: [PATCH 34/45] fix: store the PIN estimates only once they are
 complete

---
 src/frds/measures/_probability_of_informed_trading.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/frds/measures/_probability_of_informed_trading.py b/src/frds/measures/_probability_of_informed_trading.py
index 68f5857..a1a09fc 100644
--- a/src/frds/measures/_probability_of_informed_trading.py
+++ b/src/frds/measures/_probability_of_informed_trading.py
@@ -97,9 +97,10 @@ class PIN:
                 if opt.success:
                     loglikelihood = self.parameters.loglikelihood
                     if np.isnan(loglikelihood) or (-opt.fun<np.inf and -opt.fun > loglikelihood):
-                        self.parameters = type(self).Parameters(*list(opt.x), loglikelihood=-opt.fun)
-                        self.parameters.calculate_pin()
-                        self.parameters.method = method
+                        parameters = type(self).Parameters(*list(opt.x), loglikelihood=-opt.fun)
+                        parameters.calculate_pin()
+                        parameters.method = method
+                        self.parameters = parameters
                         self.estimation_success = True
         return self.parameters
 
-- 
2.43.0


From c9d692684d2cac81224eafa6ebcc2561247dde35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:37 +0000
Subject: [PATCH 35/45] fix: report a successful estimation only once its
 results are stored

---
 src/frds/algorithms/_garch.py  | 4 ++--
 src/frds/algorithms/_mgarch.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index b2cf9b7..3eb0be7 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -92,12 +92,12 @@ class GARCHModel:
                 constraints={"type": "ineq", "fun": persistence_smaller_than_one},
             )
             if opt.success:
-                self.estimation_success = True
                 if self.zero_mean:
                     self.parameters = type(self).Parameters(0.0, *list(opt.x), loglikelihood=-opt.fun)
                 else:
                     self.parameters = type(self).Parameters(*list(opt.x), loglikelihood=-opt.fun)
                 self.resids = self.returns - self.parameters.mu
+                self.estimation_success = True
 
         return self.parameters
 
@@ -398,7 +398,6 @@ class GJRGARCHModel(GARCHModel):
                 constraints={"type": "ineq", "fun": persistence_smaller_than_one},
             )
             if opt.success:
-                self.estimation_success = True
                 if self.zero_mean:
                     self.parameters = type(self).Parameters(
                         0.0, *list(opt.x), loglikelihood=-opt.fun
@@ -408,6 +407,7 @@ class GJRGARCHModel(GARCHModel):
                         *list(opt.x), loglikelihood=-opt.fun
                     )
                 self.resids = self.returns - self.parameters.mu
+                self.estimation_success = True
 
         return self.parameters
 
diff --git a/src/frds/algorithms/_mgarch.py b/src/frds/algorithms/_mgarch.py
index f38fdf3..6426c6f 100644
--- a/src/frds/algorithms/_mgarch.py
+++ b/src/frds/algorithms/_mgarch.py
@@ -116,8 +116,8 @@ class GARCHModel_CCC:
                 ],
             )
             if opt.success:
-                self.estimation_success = True
                 self.parameters = type(self).Parameters(*list(opt.x, ), loglikelihood=-opt.fun)
+                self.estimation_success = True
         return self.parameters
 
     def loglikelihood_model(
@@ -291,11 +291,11 @@ class GARCHModel_DCC(GARCHModel_CCC):
                 ],
             )
             if opt.success:
-                self.estimation_success = True
                 a, b = list(opt.x)
                 self.parameters.a = a
                 self.parameters.b = b
                 self.parameters.loglikelihood=-opt.fun
+                self.estimation_success = True
         return self.parameters
 
     def starting_values(self) -> Tuple[float, float]:
-- 
2.43.0


From f081fd65f33f23db65b82823c75114b6007c5f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:20 +0000
Subject: [PATCH 36/45] fix: repeat a GARCH estimation that ends below its
 starting point with shorter steps

SLSQP's first step can leave for parameters where all variances are at
their bounds. The estimation then stopped there, reporting success with
a log-likelihood far below that of the starting values, or failed.
---
 src/frds/algorithms/_garch.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index 3eb0be7..0f670d9 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -12,6 +12,29 @@ except ImportError:
     USE_CPP_EXTENSION = False
 
 
+def _minimize(fun, x0, args, **kwargs) -> OptimizeResult:
+    """Minimizes ``fun`` from ``x0``, and fails rather than end above ``fun(x0)``.
+
+    The first step may leave for parameters where all variances are at their
+    bounds and stop there, in which case the search is repeated with shorter
+    steps, i.e., with ``fun`` scaled down.
+    """
+    initial = fun(np.asarray(x0), *args)
+    for scale in (1.0, 1e-3, 1e-6):
+        opt: OptimizeResult = minimize(
+            lambda *x: fun(*x) * scale,
+            x0,
+            args=args,
+            options={"ftol": 1e-6 * scale},
+            **kwargs,
+        )
+        opt.fun /= scale
+        opt.success = bool(opt.success and opt.fun <= initial)
+        if opt.success:
+            break
+    return opt
+
+
 class GARCHModel:
     """:doc:`/algorithms/garch` model with constant mean and Normal noise
 
@@ -83,7 +106,7 @@ class GARCHModel:
                 "Values in x were outside bounds during a minimize step",
                 RuntimeWarning,
             )
-            opt: OptimizeResult = minimize(
+            opt: OptimizeResult = _minimize(
                 self.loglikelihood_model,
                 starting_vals,
                 args=(self.backcast_value, self.var_bounds, self.zero_mean),
@@ -389,7 +412,7 @@ class GJRGARCHModel(GARCHModel):
                 "Values in x were outside bounds during a minimize step",
                 RuntimeWarning,
             )
-            opt: OptimizeResult = minimize(
+            opt: OptimizeResult = _minimize(
                 self.loglikelihood_model,
                 starting_vals,
                 args=(self.backcast_value, self.var_bounds, self.zero_mean),
-- 
2.43.0


From 79355c5bc9c78fcaee1377ba684e4f3538305ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:59 +0000
Subject: [PATCH 37/45] fix: do not report an overflowed likelihood as a PIN
 estimate

---
 src/frds/measures/_probability_of_informed_trading.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/frds/measures/_probability_of_informed_trading.py b/src/frds/measures/_probability_of_informed_trading.py
index a1a09fc..82c9862 100644
--- a/src/frds/measures/_probability_of_informed_trading.py
+++ b/src/frds/measures/_probability_of_informed_trading.py
@@ -94,9 +94,10 @@ class PIN:
                     method="L-BFGS-B",
                     bounds=bounds,
                 )
-                if opt.success:
+                # an overflowed log likelihood is no estimate
+                if opt.success and np.isfinite(opt.fun):
                     loglikelihood = self.parameters.loglikelihood
-                    if np.isnan(loglikelihood) or (-opt.fun<np.inf and -opt.fun > loglikelihood):
+                    if np.isnan(loglikelihood) or -opt.fun > loglikelihood:
                         parameters = type(self).Parameters(*list(opt.x), loglikelihood=-opt.fun)
                         parameters.calculate_pin()
                         parameters.method = method
-- 
2.43.0


From ebc02a16a8be89d5c064aefcb1307291fa14904d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:36 +0000
Subject: [PATCH 38/45] fix: keep the 2010 PIN likelihood finite on active days

---
 .../measures/_probability_of_informed_trading.py     | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/frds/measures/_probability_of_informed_trading.py b/src/frds/measures/_probability_of_informed_trading.py
index 82c9862..e88cd84 100644
--- a/src/frds/measures/_probability_of_informed_trading.py
+++ b/src/frds/measures/_probability_of_informed_trading.py
@@ -138,12 +138,18 @@ class PIN:
         B = self.B
         S = self.S
         M: np.ndarray = np.minimum(B, S) + np.maximum(B, S) / 2
+        # the powers of xs and xb overflow on active days, so take their logs
+        log_xs, log_xb = np.log(xs), np.log(xb)
+        with np.errstate(divide="ignore"):
+            log_good = np.log(alpha * (1 - delta))
+            log_bad = np.log(alpha * delta)
+            log_none = np.log(1 - alpha)
         # fmt: off
         l = np.sum(-eB-eS + M * (np.log(xb) + np.log(xs)) +
                 B * np.log(mu + eB) + S * np.log(mu + eS)) + \
-            np.sum(np.log(alpha * (1 - delta) * np.exp(-mu) * xs**(S - M) * xb**(-M) +
-                        alpha * delta * np.exp(-mu) * xb**(B - M) * xs**(-M) +
-                        (1 - alpha) * xs**(S - M) * xb**(B - M)))
+            np.sum(np.logaddexp.reduce([log_good - mu + (S - M) * log_xs - M * log_xb,
+                                        log_bad - mu + (B - M) * log_xb - M * log_xs,
+                                        log_none + (S - M) * log_xs + (B - M) * log_xb]))
         # fmt: on
         return -l
 
-- 
2.43.0


From 463a582f1204c130d4134944116b150d05b8f7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:00 +0000
Subject: [PATCH 39/45] fix: the bank simulation study keeps the caller's
 warning filters

---
 .../modified_merton/mod_merton_simulation.py  | 43 +++++++++----------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/src/frds/measures/modified_merton/mod_merton_simulation.py b/src/frds/measures/modified_merton/mod_merton_simulation.py
index 1cc1622..f4c55c9 100644
--- a/src/frds/measures/modified_merton/mod_merton_simulation.py
+++ b/src/frds/measures/modified_merton/mod_merton_simulation.py
@@ -119,28 +119,27 @@ def simulate(Nsim=10000, direc=None):
     fs1 = []
     bookF1 = []
 
-    warnings.filterwarnings("ignore", category=RuntimeWarning)
-
-    # Merton model fit to equity value and volatility from our model
-    for k in range(K):
-        initb = (Et[k] + D * np.exp(-r * H), sigEt[k] / 2)
-
-        bout = fsolve(lambda b: merton_solution(b, Et[k], D, r, y, H, sigEt[k]), initb)
-
-        A = bout[0]
-        s = max(bout[1], 0.0001)
-
-        mertdd[k] = (np.log(A) - np.log(D) + (r - y - s**2 / 2) * H) / (
-            s * np.sqrt(H)
-        )
-        mertdef[k] = norm.cdf(-mertdd[k])
-        C, P = blsprice(A, D, r, H, s, y)
-        mertGG[k] = g * P
-        mertsp[k] = (1 / H) * np.log((D * np.exp(-r * H)) / ((D * np.exp(-r * H)) - P))
-        mertA[k] = A
-        merts[k] = s
-
-    warnings.filterwarnings("default")
+    with warnings.catch_warnings():
+        warnings.filterwarnings("ignore", category=RuntimeWarning)
+
+        # Merton model fit to equity value and volatility from our model
+        for k in range(K):
+            initb = (Et[k] + D * np.exp(-r * H), sigEt[k] / 2)
+
+            bout = fsolve(lambda b: merton_solution(b, Et[k], D, r, y, H, sigEt[k]), initb)
+
+            A = bout[0]
+            s = max(bout[1], 0.0001)
+
+            mertdd[k] = (np.log(A) - np.log(D) + (r - y - s**2 / 2) * H) / (
+                s * np.sqrt(H)
+            )
+            mertdef[k] = norm.cdf(-mertdd[k])
+            C, P = blsprice(A, D, r, H, s, y)
+            mertGG[k] = g * P
+            mertsp[k] = (1 / H) * np.log((D * np.exp(-r * H)) / ((D * np.exp(-r * H)) - P))
+            mertA[k] = A
+            merts[k] = s
 
     mktCR = Et / (Et + Bt)
     sp = (1 / H) * np.log((D * np.exp(-r * H)) / Bt)
-- 
2.43.0


From 1fb1f2c4fd7b242a3163b1766fa1587b1d918213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:25 +0000
Subject: [PATCH 40/45] fix: a debt maturity of a whole number of steps is
 accepted whatever the rounding

4.2 years in ten steps of a six-year loan are 7.000000000000001 steps, and
the modified Merton computations stopped with a bare AssertionError.
---
 src/frds/measures/modified_merton/mod_merton_computation.py  | 5 +++--
 .../modified_merton/mod_single_cohort_computation.py         | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/frds/measures/modified_merton/mod_merton_computation.py b/src/frds/measures/modified_merton/mod_merton_computation.py
index 5cd95d8..e8e8c13 100644
--- a/src/frds/measures/modified_merton/mod_merton_computation.py
+++ b/src/frds/measures/modified_merton/mod_merton_computation.py
@@ -45,8 +45,9 @@ def mod_merton_computation(fs, param, N, Nsim2, w=None, random_seed=1):
     # This problem also presents in Nagel's original Matlab code
     HN = H * (N / T)  # maturity in N time
     if isinstance(HN, float):
-        assert HN.is_integer()
-        HN = int(HN)
+        # up to rounding, e.g. 4.2 * (10 / 6) = 7.000000000000001
+        assert abs(HN - round(HN)) < 1e-6
+        HN = round(HN)
     szfs = fs.shape[0]
     # use second and third blocks for numerical derivative
     fs = np.concatenate((fs, fs, fs), axis=0)
diff --git a/src/frds/measures/modified_merton/mod_single_cohort_computation.py b/src/frds/measures/modified_merton/mod_single_cohort_computation.py
index 247bd09..14d3d88 100644
--- a/src/frds/measures/modified_merton/mod_single_cohort_computation.py
+++ b/src/frds/measures/modified_merton/mod_single_cohort_computation.py
@@ -46,8 +46,9 @@ def mod_single_cohort_computation(fs, param, N, Nsim2, w=None, random_seed=1):
     # This problem also presents in Nagel's original Matlab code
     HN = H * (N / T) # maturity in N time
     if isinstance(HN, float):
-        assert HN.is_integer()
-        HN = int(HN)
+        # up to rounding, e.g. 4.2 * (10 / 6) = 7.000000000000001
+        assert abs(HN - round(HN)) < 1e-6
+        HN = round(HN)
     szfs = fs.shape[0]
     fs = np.concatenate((fs, fs, fs), axis=0)
     Nsim1 = fs.shape[0]
-- 
2.43.0


From 95df5ba8caf54fb66911a2e11e3db3484014fac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:34 +0000
Subject: [PATCH 41/45] fix: ask slope of unsigned integer prices does not wrap
 around when an ask is below the midpoint

---
 src/frds/measures/lob_slope.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/frds/measures/lob_slope.py b/src/frds/measures/lob_slope.py
index 968473c..03f0dbc 100644
--- a/src/frds/measures/lob_slope.py
+++ b/src/frds/measures/lob_slope.py
@@ -56,7 +56,9 @@ def DGGW_ask_slope(
     assert k > 1  # at least two levels
     assert len(mid_point.shape) == 1 and n == mid_point.shape[0]
 
-    slope = np.sum(ask_size, axis=1) / (ask_price_highest_level - mid_point)
+    # prices may be unsigned integers, whose differences would wrap around
+    distance = np.subtract(ask_price_highest_level, mid_point, dtype=float)
+    slope = np.sum(ask_size, axis=1) / distance
     return np.nanmean(slope)
 
 
-- 
2.43.0


From b15e9338550e8bc32eaa27cc19460c7889a94fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:34 +0000
Subject: [PATCH 42/45] fix: order book slopes refuse prices of other quotes
 than the sizes

---
 src/frds/measures/lob_slope.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/frds/measures/lob_slope.py b/src/frds/measures/lob_slope.py
index 03f0dbc..2c55db6 100644
--- a/src/frds/measures/lob_slope.py
+++ b/src/frds/measures/lob_slope.py
@@ -55,6 +55,7 @@ def DGGW_ask_slope(
     n, k = ask_size.shape
     assert k > 1  # at least two levels
     assert len(mid_point.shape) == 1 and n == mid_point.shape[0]
+    assert np.shape(ask_price_highest_level) == mid_point.shape
 
     # prices may be unsigned integers, whose differences would wrap around
     distance = np.subtract(ask_price_highest_level, mid_point, dtype=float)
@@ -96,6 +97,7 @@ def DGGW_bid_slope(
     n, k = bid_size.shape
     assert k > 1  # at least two levels
     assert len(mid_point.shape) == 1 and n == mid_point.shape[0]
+    assert np.shape(bid_price_highest_level) == mid_point.shape
 
     # prices may be unsigned integers, whose differences would wrap around
     distance = np.subtract(bid_price_highest_level, mid_point, dtype=float)
@@ -121,6 +123,7 @@ def DGGW_bid_side_slope_difference(
     # sizes may be unsigned integers, whose differences would wrap around
     bid_size = np.asarray(bid_size, dtype=float)
     bid_price = np.asarray(bid_price, dtype=float)
+    assert bid_price.ndim == 2 and bid_price.shape[0] == n
     # fmt: off
     slope_h = (bid_size[:,4] - bid_size[:,2]) / np.abs(bid_price[:,4] - bid_price[:,2])
     slope_l = (bid_size[:,2] - bid_size[:,0]) / np.abs(bid_price[:,2] - bid_price[:,0])
-- 
2.43.0


From 9076c488ebb6f5925e63955a5e12b5812c584132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:34 +0000
Subject: [PATCH 43/45] fix: price impact refuses prices of other trades than
 the midpoints

---
 src/frds/measures/price_impact.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frds/measures/price_impact.py b/src/frds/measures/price_impact.py
index 31f3c09..2908d63 100644
--- a/src/frds/measures/price_impact.py
+++ b/src/frds/measures/price_impact.py
@@ -29,7 +29,7 @@ def simple_price_impact(
     midpoint_later = np.asarray(midpoint_later, dtype=float)
     midpoint = np.asarray(midpoint, dtype=float)
     volume = np.asarray(volume, dtype=float)
-    assert midpoint_later.shape == midpoint.shape == volume.shape
+    assert price.shape == midpoint_later.shape == midpoint.shape == volume.shape
     if trade_direction is None:
         # No trade direction
         if pct_spread:
-- 
2.43.0


From b92d646a50a376dfa9e3147614f3ce9f7a3c9ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:34 +0000
Subject: [PATCH 44/45] fix: absorption ratio refuses a fraction of the
 eigenvectors outside 0 to 1

---
 src/frds/measures/_absorption_ratio.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/frds/measures/_absorption_ratio.py b/src/frds/measures/_absorption_ratio.py
index 90cc690..4d3f70c 100644
--- a/src/frds/measures/_absorption_ratio.py
+++ b/src/frds/measures/_absorption_ratio.py
@@ -24,6 +24,7 @@ class AbsorptionRatio:
         Returns:
             float: Absorption ratio for the market
         """
+        assert 0 <= fraction_eigenvectors <= 1
         n_assets, _ = self.asset_returns.shape
         eig_sorted = sorted(self.eigvals)
         # fmt: off
-- 
2.43.0


From 05a29f7703984a30c8cd368b50065f79227bd356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:35 +0000
Subject: [PATCH 45/45] fix: the 2011 PIN likelihood of unsigned integer counts
 does not wrap around

---
 src/frds/measures/_probability_of_informed_trading.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frds/measures/_probability_of_informed_trading.py b/src/frds/measures/_probability_of_informed_trading.py
index e88cd84..61a80ce 100644
--- a/src/frds/measures/_probability_of_informed_trading.py
+++ b/src/frds/measures/_probability_of_informed_trading.py
@@ -167,7 +167,8 @@ class PIN:
         S = self.S
         e_1i = -mu - S * np.log(1 + mu / eS)
         e_2i = -mu - B * np.log(1 + mu / eB)
-        e_3i = -B * np.log(1 + mu / eB) - S * np.log(1 + mu / eS)
+        # not -B, which wraps around where counts are unsigned integers
+        e_3i = -(B * np.log(1 + mu / eB)) - S * np.log(1 + mu / eS)
         e_max_i = np.maximum.reduce([e_1i, e_2i, e_3i])
         # fmt: off
         l = np.sum(-eB-eS + B * np.log(mu + eB) + S * np.log(mu + eS) + e_max_i) + \
-- 
2.43.0

