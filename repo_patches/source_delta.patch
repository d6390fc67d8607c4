From b2749b645942187cf599e134fea75c2bbdb3e3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:19 +0000
Subject: [PATCH 01/34] fix: never use more nearest neighbors than there are
 other points

---
 src/votess.ipp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/votess.ipp b/src/votess.ipp
index e5ccd99..acef49f 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -681,6 +681,12 @@ tesellate(
   const auto& refset = xyzset;
   const size_t refsize = refset.size();
 
+  // a point has at most refsize - 1 neighbors: a larger k would leave unused
+  // heap entries behind, which must not be mistaken for neighbors.
+  const int k = args["k"];
+  const int k_max = refsize > 2 ? static_cast<int>(refsize - 1) : 1;
+  if (k < 1 || k > k_max) args["k"] = k < 1 ? 1 : k_max;
+
   std::vector<std::vector<Ti>>  tmpnn(refsize);
   std::vector<struct cc::state> states(refsize);
 
-- 
2.43.0


From c899ad3884db72475682c3a0699715f4b3da76ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:19 +0000
Subject: [PATCH 02/34] fix: cc_p_maxsize above 255 must not hang or wrap plane
 indices

---
 src/boundary.ipp | 12 ++++++------
 src/cc.ipp       |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/boundary.ipp b/src/boundary.ipp
index 03432ba..4f3f98f 100644
--- a/src/boundary.ipp
+++ b/src/boundary.ipp
@@ -193,10 +193,10 @@ inline boundary::bstatus boundary::compute(
     }
   
     bool flag = false;
-    for (uint8_t edge_i = 0; edge_i < dr_size; edge_i++) {
+    for (Ti edge_i = 0; edge_i < dr_size; edge_i++) {
       if (cycle[dr_offs + edge_i] == boundary::bstatus::undefined) continue;
 
-      for (uint8_t edge_j = edge_i + 1; edge_j < dr_size; edge_j++) {
+      for (Ti edge_j = edge_i + 1; edge_j < dr_size; edge_j++) {
         if (cycle[dr_offs + edge_j] == boundary::bstatus::undefined) continue;
 
         const bool cond = cycle[dr_offs + edge_i] == cycle[dr_offs + edge_j];
@@ -251,7 +251,7 @@ inline boundary::bstatus boundary::compute(
     cycle[dr_offs + head] = triangle_edge_1;
   }
   
-  Tu swap_j = r_size;
+  Ti swap_j = r_size;
   for (Ti j = 1; j < r_size; j++) {
   
     struct vstatus stat;
@@ -264,7 +264,7 @@ inline boundary::bstatus boundary::compute(
   
       uint8_t edge = cycle[dr_offs + first];
   
-      Tu counter = 0;
+      Ti counter = 0;
       while (true) {
         head = edge;
   
@@ -331,11 +331,11 @@ inline boundary::bstatus boundary::compute(
   
   
     bool flag = false;
-    for (uint8_t edge_i = 0; edge_i < dr_size; edge_i++) {
+    for (Ti edge_i = 0; edge_i < dr_size; edge_i++) {
       if (cycle[dr_offs + edge_i] == boundary::bstatus::undefined) continue;
 
 
-      for (uint8_t edge_j = edge_i + 1; edge_j < dr_size; edge_j++) {
+      for (Ti edge_j = edge_i + 1; edge_j < dr_size; edge_j++) {
         if (cycle[dr_offs + edge_j] == boundary::bstatus::undefined) continue;
 
         const bool cond = cycle[dr_offs + edge_i] == cycle[dr_offs + edge_j];
diff --git a/src/cc.ipp b/src/cc.ipp
index ad3da13..686830b 100644
--- a/src/cc.ipp
+++ b/src/cc.ipp
@@ -135,7 +135,7 @@ void cci::compute(
     
     if (r_size > 0) {
 
-      if (p_size >= p_maxsize) {
+      if (p_size >= p_maxsize || p_size >= boundary::bstatus::undefined) {
         state.set_true(cc::error_p_overflow);
         return;
       }
@@ -358,7 +358,7 @@ void cci::compute(
     
     if (r_size > 0) {
 
-      if (p_size >= p_maxsize) {
+      if (p_size >= p_maxsize || p_size >= boundary::bstatus::undefined) {
         state.set_true(cc::error_p_overflow);
         return;
       }
@@ -585,7 +585,7 @@ void cci::compute(
     
     if (r_size > 0) {
 
-      if (p_size >= p_maxsize) {
+      if (p_size >= p_maxsize || p_size >= boundary::bstatus::undefined) {
         state.set_true(cc::error_p_overflow);
         return;
       }
-- 
2.43.0


From 86c025c711d2c5973e0a656467fa4d206ebbb178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:19 +0000
Subject: [PATCH 03/34] fix: do not truncate k to 16 bits

---
 src/cc.ipp  | 6 +++---
 src/knn.ipp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cc.ipp b/src/cc.ipp
index 686830b..70ea386 100644
--- a/src/cc.ipp
+++ b/src/cc.ipp
@@ -31,7 +31,7 @@ void cci::compute(
   const unsigned short int p_initsize = sizeof(p_init) / (sizeof(*p_init) * 4);
   const unsigned short int t_initsize = sizeof(t_init) / (sizeof(*t_init) * 3);
 
-  const unsigned short int k = args.k;
+  const Ti k = args.k;
   const unsigned short int p_maxsize = args.p_maxsize;
   const unsigned short int t_maxsize = args.t_maxsize;
 
@@ -254,7 +254,7 @@ void cci::compute(
   const unsigned short int p_initsize = sizeof(p_init) / (sizeof(*p_init) * 4);
   const unsigned short int t_initsize = sizeof(t_init) / (sizeof(*t_init) * 3);
 
-  const unsigned short int k = args.k;
+  const Ti k = args.k;
   const unsigned short int p_maxsize = args.p_maxsize;
   const unsigned short int t_maxsize = args.t_maxsize;
 
@@ -481,7 +481,7 @@ void cci::compute(
   const unsigned short int p_initsize = sizeof(p_init) / (sizeof(*p_init) * 4);
   const unsigned short int t_initsize = sizeof(t_init) / (sizeof(*t_init) * 3);
 
-  const unsigned short int k = args.k;
+  const Ti k = args.k;
   const unsigned short int p_maxsize = args.p_maxsize;
   const unsigned short int t_maxsize = args.t_maxsize;
 
diff --git a/src/knn.ipp b/src/knn.ipp
index 3137d57..cbb3573 100644
--- a/src/knn.ipp
+++ b/src/knn.ipp
@@ -246,7 +246,7 @@ void knni::compute(
   const Tf q1 = refset[refsize * 1 + index];
   const Tf q2 = refset[refsize * 2 + index];
 
-  const uint16_t k = args.k;
+  const Ti k = args.k;
   const uint8_t gr = args.grid_resolution;
   const Tf gl = 1.0f / args.grid_resolution;
 
-- 
2.43.0


From 5a6b285e9e6be71cc8d91a1ee85a5e116df746da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:19 +0000
Subject: [PATCH 04/34] fix: report overflow when the initial cell does not fit
 the work arrays

---
 src/cc.ipp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/cc.ipp b/src/cc.ipp
index 70ea386..3ce1500 100644
--- a/src/cc.ipp
+++ b/src/cc.ipp
@@ -41,6 +41,10 @@ void cci::compute(
 
   cc::state& state = states[index];
 
+  if (p_maxsize < p_initsize) state.set_true(cc::error_p_overflow);
+  if (t_maxsize < t_initsize) state.set_true(cc::error_t_overflow);
+  if (p_maxsize < p_initsize || t_maxsize < t_initsize) return;
+
   Tf vertex[4];
   Tf bisector[4];
 
@@ -264,6 +268,10 @@ void cci::compute(
 
   cc::state& state = states[index];
 
+  if (p_maxsize < p_initsize) state.set_true(cc::error_p_overflow);
+  if (t_maxsize < t_initsize) state.set_true(cc::error_t_overflow);
+  if (p_maxsize < p_initsize || t_maxsize < t_initsize) return;
+
   Tf vertex[4];
   Tf bisector[4];
 
@@ -491,6 +499,10 @@ void cci::compute(
 
   cc::state& state = states[index];
 
+  if (p_maxsize < p_initsize) state.set_true(cc::error_p_overflow);
+  if (t_maxsize < t_initsize) state.set_true(cc::error_t_overflow);
+  if (p_maxsize < p_initsize || t_maxsize < t_initsize) return;
+
   Tf vertex[4];
   Tf bisector[4];
 
-- 
2.43.0


From a2208d2fe56f8294073520233a483e3eae32977e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:19 +0000
Subject: [PATCH 05/34] fix: recompute until the overflowed cells are complete,
 too

---
 src/votess.ipp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index acef49f..64422d9 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -555,15 +555,24 @@ __cpu__recompute(
     } 
 
     subsize = cur;
-    for (Ti i = 0; i < refsize; i++) states[i].reset();
 
-    if (subsize <= 0) {
+    // plane indices are limited to [0, bstatus::undefined), which also bounds
+    // the number of triangles of a cell.
+    const int p_limit = boundary::bstatus::undefined;
+    const int t_limit = 2 * p_limit;
+    update_p_maxsize = update_p_maxsize && p_maxsize < p_limit;
+    update_t_maxsize = update_t_maxsize && t_maxsize < t_limit;
+
+    const bool update_k = k < (refsize - 1);
+    if (subsize <= 0 || !(update_k || update_p_maxsize || update_t_maxsize)) {
       break;
     }
 
-    k = (k * 2) > (refsize - 1) ? refsize - 1 : k * 2;
-    p_maxsize *= update_p_maxsize ? 2 : 1;
-    t_maxsize *= update_t_maxsize ? 2 : 1;
+    for (Ti i = 0; i < subsize; i++) states[indices[i]].reset();
+
+    if (update_k) k = (k * 2) > (refsize - 1) ? refsize - 1 : k * 2;
+    if (update_p_maxsize) p_maxsize = std::min(p_maxsize * 2 + 1, p_limit);
+    if (update_t_maxsize) t_maxsize = std::min(t_maxsize * 2 + 1, t_limit);
 
     args["k"] = k;
     args["cc_p_maxsize"] = p_maxsize;
@@ -622,10 +631,6 @@ __cpu__recompute(
 
     tmpnn_fill(tmpnn, indices, subsize, knn, args);
 
-    if (k >= (refsize - 1)) {
-      break;
-    }
-
   }
 
 }
-- 
2.43.0


From 8f7762ec5e22f0618eec2df8c521e67d12f0f6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:19 +0000
Subject: [PATCH 06/34] fix: keep coordinates next to 1 inside the grid

---
 src/xyzset.ipp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/xyzset.ipp b/src/xyzset.ipp
index 9bf22a4..c9f531a 100644
--- a/src/xyzset.ipp
+++ b/src/xyzset.ipp
@@ -13,6 +13,14 @@ inline T2 get_distance(
   return square(p0 - q0) + square(p1 - q1) + square(p2 - q2);
 }
 
+// grid cell of a coordinate along one axis. Rounding in x / gl must not move a
+// coordinate next to 1 out of the grid.
+template <typename T1, typename T2>
+inline T1 cell_index(const T2 x, const T2 gl, const int gr) {
+  const T1 c = static_cast<T1>(std::floor(x / gl));
+  return c < 0 ? 0 : (c < gr ? c : gr - 1);
+}
+
 template <typename T1, typename T2>
 const std::pair<std::vector<T1>, std::vector<T1>>
 sort(std::vector<std::array<T2,3>>& xyzset, const args::xyzset& args) {
@@ -26,9 +34,9 @@ sort(std::vector<std::array<T2,3>>& xyzset, const args::xyzset& args) {
   
   // init
   for (size_t i = 0; i < xyzset.size(); i++) {
-    id[i] = static_cast<T1>(std::floor(xyzset[i][0] / gl))
-          + static_cast<T1>(std::floor(xyzset[i][1] / gl)) * gr  
-          + static_cast<T1>(std::floor(xyzset[i][2] / gl)) * gr * gr; 
+    id[i] = cell_index<T1>(xyzset[i][0], gl, gr)
+          + cell_index<T1>(xyzset[i][1], gl, gr) * gr  
+          + cell_index<T1>(xyzset[i][2], gl, gr) * gr * gr; 
   };
   
   // sort
@@ -108,9 +116,9 @@ bool validate_sort(
 ) {
   T2 gl = 1.0f / gr;
   for (size_t i = 0; i < xyzset.size(); ++i) {
-    T1 cid = static_cast<T1>(std::floor(xyzset[i][0] / gl)) +
-             static_cast<T1>(std::floor(xyzset[i][1] / gl) * gr) +
-             static_cast<T1>(std::floor(xyzset[i][2] / gl) * gr * gr);
+    T1 cid = cell_index<T1>(xyzset[i][0], gl, gr) +
+             cell_index<T1>(xyzset[i][1], gl, gr) * gr +
+             cell_index<T1>(xyzset[i][2], gl, gr) * gr * gr;
     if (cid != id[i]) {
       return false;
     }
-- 
2.43.0


From a5d8afc8eb5db10a7bd7255ecc476b93b38bb604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:24 +0000
Subject: [PATCH 07/34] fix: chunked GPU runs must read the coordinates of the
 whole set

---
 src/cc.ipp     | 6 +++---
 src/votess.ipp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cc.ipp b/src/cc.ipp
index 3ce1500..a240df1 100644
--- a/src/cc.ipp
+++ b/src/cc.ipp
@@ -506,9 +506,9 @@ void cci::compute(
   Tf vertex[4];
   Tf bisector[4];
 
-  const Tf px = refset[refsize * 0 + index];
-  const Tf py = refset[refsize * 1 + index];
-  const Tf pz = refset[refsize * 2 + index];
+  const Tf px = refset[xyzsize * 0 + index];
+  const Tf py = refset[xyzsize * 1 + index];
+  const Tf pz = refset[xyzsize * 2 + index];
   
   for (Ti j = 0; j < p_initsize; j++) {
     P[4 * refsize * j + refsize * 0 + i] = p_init[4 * j + 0];
diff --git a/src/votess.ipp b/src/votess.ipp
index 64422d9..02ae61c 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -313,7 +313,7 @@ __gpu__tesellate(
         knni::compute<Ti, Tf>(
           g_index, aindices[g_index],
           axyzset, xyzsize, aid, aoffset,
-          axyzset, subsize,
+          axyzset, xyzsize,
           aheap_id, aheap_pq, subsize,
           aargs_knn
         );
-- 
2.43.0


From a8e99833860a90fc12f10868e7847a244d6aa184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:24 +0000
Subject: [PATCH 08/34] fix: accept any gpu_ndsize, also one not dividing the
 number of points

---
 src/votess.ipp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index 02ae61c..4fd3fc8 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -303,13 +303,19 @@ __gpu__tesellate(
       auto aargs_knn = args_knn;
       auto aargs_cc = args_cc;
 
+      // the global range must be a multiple of the work group size
+      const size_t ngroups = (subsize + ndsize - 1) / ndsize;
+
       cgh.parallel_for<class __sycl__tessellate>
-      (sycl::nd_range<1>(sycl::range<1>(subsize), sycl::range<1>(ndsize)),
+      (sycl::nd_range<1>(sycl::range<1>(ngroups * ndsize), 
+                         sycl::range<1>(ndsize)),
       [=](sycl::nd_item<1> it) {
 
         const size_t g_index = it.get_global_linear_id();
         const size_t l_index = it.get_local_linear_id();
 
+        if (g_index >= static_cast<size_t>(subsize)) return;
+
         knni::compute<Ti, Tf>(
           g_index, aindices[g_index],
           axyzset, xyzsize, aid, aoffset,
-- 
2.43.0


From 797aa6ba0473338f2d841bcdf4513c71693cbd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:24 +0000
Subject: [PATCH 09/34] fix: initialize the cell states on the GPU and keep
 them between chunks

---
 src/votess.ipp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index 4fd3fc8..7f1cf8f 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -234,6 +234,11 @@ __gpu__tesellate(
   sycl::buffer<Tf,1>      bP(sycl::range<1>(subsize * p_maxsize * 4));
   sycl::buffer<Tu,1> bT(sycl::range<1>(subsize * t_maxsize * 3));
 
+  {
+    auto hstates = bstates.get_host_access();
+    for (size_t i = 0; i < bstates.size(); i++) hstates[i].reset();
+  }
+
   for (int run = 0; run < nruns; run++) {
     
     std::cout << "[chunking] run : " << run << "/" << nruns << std::endl;
@@ -295,7 +300,7 @@ __gpu__tesellate(
 
       auto aP  = sycl::accessor(bP,  cgh, read_write, property::no_init());
       auto aT  = sycl::accessor(bT,  cgh, read_write, property::no_init());
-      auto astates = accessor(bstates, cgh, read_write, property::no_init());
+      auto astates = accessor(bstates, cgh, read_write);
 
       sycl::local_accessor<Tu, 1> 
       ldR(sycl::range<1>(ndsize * p_maxsize), cgh);
-- 
2.43.0


From c7e503c2249ff71ae8567f1b731e0e0b6195610e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:24 +0000
Subject: [PATCH 10/34] fix: grid resolutions above 255 on the GPU

---
 src/knn.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/knn.ipp b/src/knn.ipp
index cbb3573..c193a2a 100644
--- a/src/knn.ipp
+++ b/src/knn.ipp
@@ -247,7 +247,7 @@ void knni::compute(
   const Tf q2 = refset[refsize * 2 + index];
 
   const Ti k = args.k;
-  const uint8_t gr = args.grid_resolution;
+  const int gr = args.grid_resolution;
   const Tf gl = 1.0f / args.grid_resolution;
 
   const uint16_t px = (id[index]) % gr;
@@ -263,7 +263,7 @@ void knni::compute(
   const Tf min_dz = dz * (dz <= gl2) + (gl - dz) * (dz > gl2);
   const Tf min = utils::bmin(min_dx, min_dy, min_dz);
 
-  for (uint8_t r = 0; r < gr; r++) {
+  for (int r = 0; r < gr; r++) {
 
     const uint16_t beg_z = utils::bmax(pz - r, 0);
     const uint16_t beg_y = utils::bmax(py - r, 0);
-- 
2.43.0


From df3ecc061821e45b30475e8a96c477734d2c9dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:59 +0000
Subject: [PATCH 11/34] fix: suppress output without redirecting the shared
 std::cout

---
 src/votess.ipp | 86 +++++++++++++++++++++-----------------------------
 1 file changed, 36 insertions(+), 50 deletions(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index 7f1cf8f..932a67c 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -20,72 +20,57 @@
 
 #define FP_INFINITY 128.00f
 
-namespace suppress {
-  class stdout {
-    public:
-      stdout() : buf(std::cout.rdbuf()) {
-        std::cout.rdbuf(__tmp__buf.rdbuf());
-      }
-      ~stdout() {
-        std::cout.rdbuf(buf);
-      }
-    private:
-      std::streambuf* buf;
-      std::stringstream __tmp__buf;
-  };
-}
-
 static inline void 
-print_device(const sycl::queue& queue) {
+print_device(const sycl::queue& queue, std::ostream& out) {
 
   const auto d = queue.get_device();
   
   const size_t gibibyte = std::pow(2,30);
   const size_t kibibyte = std::pow(2,10);
 
-  std::cout << " :: DEVICE INFO :: " << "\n";
+  out << " :: DEVICE INFO :: " << "\n";
 
-  std::cout << " :: Using Device: " 
+  out << " :: Using Device: " 
             << d.get_info<sycl::info::device::name>() << "\n";
   
-  std::cout << " :: Device Info: \n";
+  out << " :: Device Info: \n";
 
-  std::cout << "    -- Vendor: "  
+  out << "    -- Vendor: "  
             << d.get_info<sycl::info::device::vendor>() 
             << "\n";
 
-  std::cout << "    -- Device Type: " 
+  out << "    -- Device Type: " 
             << (d.is_cpu() ? "CPU" : (d.is_gpu() ? "GPU" : "Other")) 
             << "\n";
 
-  std::cout << "    -- Maximum Work Group Size: " 
+  out << "    -- Maximum Work Group Size: " 
             << d.get_info<sycl::info::device::max_work_group_size>() 
             << "\n";
 
-  std::cout << "    -- Preferred Vector Width for Double: " 
+  out << "    -- Preferred Vector Width for Double: " 
             << d.get_info<sycl::info::device::preferred_vector_width_double>() 
             << "\n";
 
-  std::cout << "    -- Max Compute Units: " 
+  out << "    -- Max Compute Units: " 
             << d.get_info<sycl::info::device::max_compute_units>() 
             << "\n";
 
-  std::cout << "    -- Max Memory Allocation Size: " 
+  out << "    -- Max Memory Allocation Size: " 
             << d.get_info<sycl::info::device::max_mem_alloc_size>() / gibibyte
             << " GiB"
             << "\n";
 
-  std::cout << "    -- Global Memory Size: " 
+  out << "    -- Global Memory Size: " 
             << d.get_info<sycl::info::device::global_mem_size>() / gibibyte
             << " GiB"
             << "\n";
  
-  std::cout << "    -- Local Memory Size: " 
+  out << "    -- Local Memory Size: " 
             << d.get_info<sycl::info::device::local_mem_size>() / kibibyte
             << " KiB"
             << "\n";
   
-  std::cout << " :: INFO END :: " << std::endl;
+  out << " :: INFO END :: " << std::endl;
 
 }
 
@@ -181,7 +166,8 @@ __gpu__tesellate(
   std::vector<std::vector<Ti>>& tmpnn,
   std::vector<cc::state>& states, 
 
-  const class vtargs& args
+  const class vtargs& args,
+  std::ostream& out
 
 ) {
 
@@ -218,7 +204,7 @@ __gpu__tesellate(
   (void) refset;
 
   sycl::queue queue;
-  print_device(queue);
+  print_device(queue, out);
 
   sycl::buffer<Ti, 1> bindices((sycl::range<1>(subsize)));
 
@@ -241,7 +227,7 @@ __gpu__tesellate(
 
   for (int run = 0; run < nruns; run++) {
     
-    std::cout << "[chunking] run : " << run << "/" << nruns << std::endl;
+    out << "[chunking] run : " << run << "/" << nruns << std::endl;
 
     const size_t _cstart = run * chunksize;
     const size_t _cend = (run == nruns - 1) ? refsize : _cstart + chunksize;
@@ -384,7 +370,8 @@ __cpu__tesellate(
   std::vector<std::vector<Ti>>& tmpnn,
   std::vector<cc::state>& states, 
 
-  const class vtargs& args
+  const class vtargs& args,
+  std::ostream& out
 
 ) {
   
@@ -406,9 +393,9 @@ __cpu__tesellate(
                (chunksize < refsize) ?
                chunksize : refsize;
 
-  std::cout << "nthread = " << nthreads << std::endl; 
-  std::cout << "chunksize = " << chunksize << std::endl; 
-  std::cout << "nruns = " << nruns << std::endl; 
+  out << "nthread = " << nthreads << std::endl; 
+  out << "chunksize = " << chunksize << std::endl; 
+  out << "nruns = " << nruns << std::endl; 
 
   const int k = args["k"];
   const int p_maxsize = args["cc_p_maxsize"];
@@ -668,10 +655,9 @@ tesellate(
 ) {
   
   // DEVELOPER FUNCTIONALITY. Must remove in final build
-  std::unique_ptr<suppress::stdout> stdout_suppressor;
-  if (args["dev_suppress_stdout"].get<bool>()) {
-    stdout_suppressor = std::make_unique<suppress::stdout>();
-  }
+  // std::cout itself is shared by all threads, and is left untouched.
+  std::ostream out(args["dev_suppress_stdout"].get<bool>() ? 
+                   nullptr : std::cout.rdbuf());
  
   static_assert(std::is_integral<Ti>::value && std::is_signed<Ti>::value,
     "Template type Ti must be a signed integer type."
@@ -715,7 +701,7 @@ tesellate(
       if (device_found()) {
 
         __gpu__tesellate<Ti, Tf, uint8_t>(xyzset, id, offset, refset, 
-                                          tmpnn, states, args);
+                                          tmpnn, states, args, out);
 
         break;
 
@@ -726,14 +712,14 @@ tesellate(
                 << "\033[0m\n";
       
       __cpu__tesellate<Ti, Tf, uint8_t>(xyzset, id, offset, refset, 
-                                        tmpnn, states, args);
+                                        tmpnn, states, args, out);
 
       break;
 
     case (device::cpu): 
 
       __cpu__tesellate<Ti, Tf, uint8_t>(xyzset, id, offset, refset, 
-                                        tmpnn, states, args);
+                                        tmpnn, states, args, out);
 
       break;
 
@@ -764,14 +750,14 @@ tesellate(
     if (s.get(cc::error_occurred)) n_error++;
   }
 
-  std::cout << "[fail] " << "sradius : " << n_sr_nreached << "\n";
-  std::cout << "       " << "p overflow: " << n_p_overflow << "\n";
-  std::cout << "       " << "t overflow: " << n_t_overflow << "\n";
-  std::cout << "       " << "inf boundary: " << n_inf_boundary << "\n";
-  std::cout << "       " << "nvalid vertice: " << n_nvalid_vertices << "\n";
-  std::cout << "       " << "nvalid neighbor: " << n_nvalid_neighbor << "\n";
-  std::cout << "       " << "nerrors : " << n_error << "\n";
-  std::cout << std::endl;
+  out << "[fail] " << "sradius : " << n_sr_nreached << "\n";
+  out << "       " << "p overflow: " << n_p_overflow << "\n";
+  out << "       " << "t overflow: " << n_t_overflow << "\n";
+  out << "       " << "inf boundary: " << n_inf_boundary << "\n";
+  out << "       " << "nvalid vertice: " << n_nvalid_vertices << "\n";
+  out << "       " << "nvalid neighbor: " << n_nvalid_neighbor << "\n";
+  out << "       " << "nerrors : " << n_error << "\n";
+  out << std::endl;
 
   return tmpnn_getdnn(tmpnn);
 
-- 
2.43.0


From 42ebc7654a1ddd6b43a382685310f2ce18e7a956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:59 +0000
Subject: [PATCH 12/34] fix: print and save one line per row, also for empty
 rows

---
 src/dnn.ipp | 39 +++++++++++++--------------------------
 1 file changed, 13 insertions(+), 26 deletions(-)

diff --git a/src/dnn.ipp b/src/dnn.ipp
index 5121dc0..e54555f 100644
--- a/src/dnn.ipp
+++ b/src/dnn.ipp
@@ -76,32 +76,26 @@ votess::dnn<Ti>::operator[](const int i) {
 
 template<typename Ti>
 size_t votess::dnn<Ti>::size() const {
-  return offs.size() - 1;
+  return offs.empty() ? 0 : offs.size() - 1;
 }
 
 template <typename Ti>
 void votess::dnn<Ti>::print() const {
 
-  if (this->list.empty()) {
+  if (this->size() == 0) {
     std::cout<<"{}"<<std::endl;
     return;
   }
 
-  Ti index = 0;
-  size_t counter = 1;
-  std::cout<<"{\n  {";
-  for (auto i : this->list) {
-    if (index == this->offs[counter]) {
-      if (counter < this->offs.size() - 1) {
-        counter += 1;
-      }
-      std::cout << "}\n  {";
+  std::cout<<"{\n";
+  for (size_t row = 0; row < this->size(); row++) {
+    std::cout<<"  {";
+    for (Ti i = this->offs[row]; i < this->offs[row + 1]; i++) {
+      std::cout<<std::setw(1)<<this->list[i]<<", ";
     }
-
-    std::cout<<std::setw(1)<<i<<", ";
-    index += 1;
+    std::cout<<"}\n";
   }
-  std::cout << "}\n}" << std::endl;
+  std::cout << "}" << std::endl;
 
 }
 
@@ -113,19 +107,12 @@ void votess::dnn<Ti>::savetxt(const std::string& fname) const {
     return;
   }
 
-  Ti index = 0;
-  size_t counter = 1;
-  for (auto i : this->list) {
-    if (index == this->offs[counter]) {
-      if (counter < this->offs.size() - 1) {
-        counter += 1;
-      }
-      fp<<"\n";
+  for (size_t row = 0; row < this->size(); row++) {
+    for (Ti i = this->offs[row]; i < this->offs[row + 1]; i++) {
+      fp<<std::setw(1)<<this->list[i]<<" ";
     }
-    fp<<std::setw(1)<<i<<" ";
-    index += 1;
+    fp<<"\n";
   }
-  fp<<"\n";
   fp.close();
 }
 
-- 
2.43.0


From b997f7c2fc7842f418b7d6426c7acb2084164ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:59 +0000
Subject: [PATCH 13/34] fix: clvotess runs on the device it was asked for

---
 src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 85a3ccb..96eab25 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -222,7 +222,7 @@ main(int argc, char* argv[]) {
 
   }
 
-  auto dnn = votess::tesellate<int, float>(xyzset, vtargs);
+  auto dnn = votess::tesellate<int, float>(xyzset, vtargs, device);
 
   dnn.print();
 
-- 
2.43.0


From d8325231b904e986e080c28519597d4c26a2d691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:59 +0000
Subject: [PATCH 14/34] fix: clvotess accepts the documented --gridres

---
 src/main.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.cpp b/src/main.cpp
index 96eab25..158fcf0 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -93,6 +93,7 @@ parse_args(int argc, char* argv[]) {
     {"infile",            required_argument,  0,  'i'},
     {"use-device",        required_argument,  0,  'x'},
     {"k-init",            required_argument,  0,  'k'},
+    {"gridres",           required_argument,  0,  'g'},
     {"grid-resolution",   required_argument,  0,  'g'},
     {"cpu-nthreads",      required_argument,  0,  't'},
     {"gpu-ndsize",        required_argument,  0,  'd'},
-- 
2.43.0


From 639011fc5812ebd9dc0ad07443d504c9c0f7c0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:59 +0000
Subject: [PATCH 15/34] fix: python indexing out of range raises IndexError

---
 src/pybind11/pyvotess.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pybind11/pyvotess.cpp b/src/pybind11/pyvotess.cpp
index dff77cc..7a97cc3 100644
--- a/src/pybind11/pyvotess.cpp
+++ b/src/pybind11/pyvotess.cpp
@@ -52,6 +52,9 @@ pybind11::class_<votess::vtargs>(module, "vtargs")
 
 pybind11::class_<votess::dnn<int>::proxy>(module, "Proxy")
   .def("__getitem__", [](votess::dnn<int>::proxy &self, int i) -> int & {
+    if (i < 0 || static_cast<size_t>(i) >= self.size()) {
+      throw pybind11::index_error("neighbor index out of range");
+    }
     return self[i];
   }, pybind11::return_value_policy::reference_internal)
   .def("size", &votess::dnn<int>::proxy::size);
@@ -62,6 +65,9 @@ pybind11::class_<votess::dnn<int>>(module, "dnn")
   .def("size", &votess::dnn<int>::size)
   .def("__getitem__", [](votess::dnn<int> &instance, int i) 
       -> votess::dnn<int>::proxy {
+    if (i < 0 || static_cast<size_t>(i) >= instance.size()) {
+      throw pybind11::index_error("row index out of range");
+    }
     return instance[i];
   }, pybind11::return_value_policy::reference_internal)
   .def("print", &votess::dnn<int>::print)
-- 
2.43.0


From 89e4f9883b018ee83dbe58b0aa45a04e3f4dc454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:48 +0000
Subject: [PATCH 16/34] fix: a python row keeps the result it refers to alive

---
 src/pybind11/pyvotess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybind11/pyvotess.cpp b/src/pybind11/pyvotess.cpp
index 7a97cc3..f07f74c 100644
--- a/src/pybind11/pyvotess.cpp
+++ b/src/pybind11/pyvotess.cpp
@@ -69,7 +69,7 @@ pybind11::class_<votess::dnn<int>>(module, "dnn")
       throw pybind11::index_error("row index out of range");
     }
     return instance[i];
-  }, pybind11::return_value_policy::reference_internal)
+  }, pybind11::keep_alive<0, 1>())
   .def("print", &votess::dnn<int>::print)
   .def("savetxt", &votess::dnn<int>::savetxt);
 
-- 
2.43.0


From 437323fa2c97eb8a404bde79a53871dd56ee901e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:48 +0000
Subject: [PATCH 17/34] fix: parameters can be read back in python

---
 src/pybind11/pyvotess.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/pybind11/pyvotess.cpp b/src/pybind11/pyvotess.cpp
index f07f74c..75d26a7 100644
--- a/src/pybind11/pyvotess.cpp
+++ b/src/pybind11/pyvotess.cpp
@@ -27,9 +27,16 @@ pybind11::enum_<votess::device>(module, "device")
 pybind11::class_<votess::vtargs>(module, "vtargs")
   .def(pybind11::init<>())
   .def("__getitem__", [](votess::vtargs &self, const std::string &key) 
-      -> votess::vtargref & {
-    return self[key];
-  }, pybind11::return_value_policy::reference_internal)
+      -> pybind11::object {
+    const pybind11::str str(self[key].get<std::string>());
+    for (PyTypeObject* type : {&PyLong_Type, &PyFloat_Type}) {
+      PyObject* value = PyObject_CallFunctionObjArgs((PyObject*)type, 
+                                                     str.ptr(), nullptr);
+      if (value) return pybind11::reinterpret_steal<pybind11::object>(value);
+      PyErr_Clear();
+    }
+    return str;
+  })
   .def("__setitem__", [](votess::vtargs &self,
                          const std::string &key,
                          pybind11::object value) {
-- 
2.43.0


From b00ed316c454acbf8552542de1a1c0adcefb44b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:48 +0000
Subject: [PATCH 18/34] fix: floating point parameter values keep their value

---
 include/arguments.hpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/arguments.hpp b/include/arguments.hpp
index a4e86fd..d96e993 100644
--- a/include/arguments.hpp
+++ b/include/arguments.hpp
@@ -41,6 +41,11 @@
 #define ARGS_DEFAULT_T_MAXSIZE 32
 #endif
 
+#include <cmath>
+#include <iomanip>
+#include <limits>
+#include <type_traits>
+
 #include <string>
 #include <unordered_map>
 #include <sstream>
@@ -81,6 +86,20 @@ class vtargref {
     std::string to_str(const T v) const {
       std::ostringstream oss;
       oss << v;
+      if constexpr (std::is_floating_point<T>::value) {
+        // never lose digits, and keep whole numbers readable as integers
+        for (int p = 7; p <= std::numeric_limits<T>::max_digits10; p++) {
+          T w; 
+          std::istringstream iss(oss.str());
+          if ((iss >> w) && w == v) break;
+          oss.str("");
+          oss << std::setprecision(p) << v;
+        }
+        if (v == std::trunc(v) && std::fabs(v) < 1e15) {
+          oss.str("");
+          oss << static_cast<long long>(v);
+        }
+      }
       return oss.str();
     }
 
-- 
2.43.0


From d47c7a6e10374c57bf8435f9976a78a852af8a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:00 +0000
Subject: [PATCH 19/34] fix: string parameter values are returned whole

---
 include/arguments.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/arguments.hpp b/include/arguments.hpp
index d96e993..68c6013 100644
--- a/include/arguments.hpp
+++ b/include/arguments.hpp
@@ -105,6 +105,7 @@ class vtargref {
 
     template <typename T>
     T from_str(const std::string& s) const {
+      if constexpr (std::is_same<T, std::string>::value) return s;
       std::istringstream iss(s); 
       T v;
       iss >> v;
-- 
2.43.0


From 4b5a24fbd91bf3be56b581e8391e44cba37404b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:40 +0000
Subject: [PATCH 20/34] fix: a lone point is not its own neighbor

---
 src/votess.ipp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/votess.ipp b/src/votess.ipp
index 932a67c..5e46687 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -732,6 +732,12 @@ tesellate(
 
   }
 
+  // a lone point has no neighbors: its list holds only the unused heap entry,
+  // which remains there when the work arrays are too small.
+  if (refsize < 2) {
+    for (auto& row : tmpnn) row.clear();
+  }
+
   int n_sr_nreached = 0;
   int n_inf_boundary = 0;
   int n_nvalid_vertices = 0;
-- 
2.43.0


From 3ac820d29416281212f1906ef4883b23f784f364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:21 +0000
Subject: [PATCH 21/34] fix: large whole floating point parameter values can be
 read as integers

---
 include/arguments.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arguments.hpp b/include/arguments.hpp
index 68c6013..bdd4ebf 100644
--- a/include/arguments.hpp
+++ b/include/arguments.hpp
@@ -95,9 +95,9 @@ class vtargref {
           oss.str("");
           oss << std::setprecision(p) << v;
         }
-        if (v == std::trunc(v) && std::fabs(v) < 1e15) {
+        if (v == std::trunc(v) && std::fabs(v) < 18446744073709551616.0) {
           oss.str("");
-          oss << static_cast<long long>(v);
+          oss << std::fixed << std::setprecision(0) << v;
         }
       }
       return oss.str();
-- 
2.43.0


From e5de7ea721de21376bd31ae3a7f2823df4feead1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:54 +0000
Subject: [PATCH 22/34] fix: reading a parameter as a type that cannot hold it
 throws

---
 include/arguments.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/arguments.hpp b/include/arguments.hpp
index bdd4ebf..3b1dbd4 100644
--- a/include/arguments.hpp
+++ b/include/arguments.hpp
@@ -112,6 +112,20 @@ class vtargref {
       if (iss.fail()) {
         throw std::invalid_argument("Invalid type conversion");
       }
+      if constexpr (std::is_integral<T>::value && sizeof(T) > 1) {
+        // the stream reads -1 as an unsigned number, and only the digits in
+        // front of a fraction or an exponent
+        long double w = 0;
+        std::istringstream whole(s);
+        whole >> w;
+        if (w <= static_cast<long double>(std::numeric_limits<T>::min()) - 1 ||
+            w >= static_cast<long double>(std::numeric_limits<T>::max()) + 1) {
+          throw std::invalid_argument("Invalid type conversion");
+        }
+        if (iss.peek() != std::istringstream::traits_type::eof()) {
+          v = static_cast<T>(w);
+        }
+      }
       return v;
     }
   
-- 
2.43.0


From 660fbd45d2e17ecb6273dcc44783febe909d754c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:26 +0000
Subject: [PATCH 23/34] fix: work-array sizes above 65535 are not truncated

---
 src/cc.ipp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cc.ipp b/src/cc.ipp
index a240df1..ccc1eef 100644
--- a/src/cc.ipp
+++ b/src/cc.ipp
@@ -32,8 +32,8 @@ void cci::compute(
   const unsigned short int t_initsize = sizeof(t_init) / (sizeof(*t_init) * 3);
 
   const Ti k = args.k;
-  const unsigned short int p_maxsize = args.p_maxsize;
-  const unsigned short int t_maxsize = args.t_maxsize;
+  const int p_maxsize = args.p_maxsize;
+  const int t_maxsize = args.t_maxsize;
 
   unsigned short int p_size = p_initsize;
   unsigned short int t_size = t_initsize; 
@@ -259,8 +259,8 @@ void cci::compute(
   const unsigned short int t_initsize = sizeof(t_init) / (sizeof(*t_init) * 3);
 
   const Ti k = args.k;
-  const unsigned short int p_maxsize = args.p_maxsize;
-  const unsigned short int t_maxsize = args.t_maxsize;
+  const int p_maxsize = args.p_maxsize;
+  const int t_maxsize = args.t_maxsize;
 
   unsigned short int p_size = p_initsize;
   unsigned short int t_size = t_initsize; 
@@ -490,8 +490,8 @@ void cci::compute(
   const unsigned short int t_initsize = sizeof(t_init) / (sizeof(*t_init) * 3);
 
   const Ti k = args.k;
-  const unsigned short int p_maxsize = args.p_maxsize;
-  const unsigned short int t_maxsize = args.t_maxsize;
+  const int p_maxsize = args.p_maxsize;
+  const int t_maxsize = args.t_maxsize;
 
   unsigned short int p_size = p_initsize;
   unsigned short int t_size = t_initsize; 
-- 
2.43.0


From 83a40f9bf4a3da15f530274743786af8c0e3546a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:56 +0000
Subject: [PATCH 24/34] fix: clvotess reports an input it cannot read

---
 src/main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index 158fcf0..8307a60 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -215,6 +215,11 @@ main(int argc, char* argv[]) {
     xyzset.push_back(point);
 
   }
+
+  if (file.bad()) {
+    std::cerr << "Error: Could not read file: " << infile << std::endl;
+    return 1;
+  }
   
   if (vtargs["k"].get<int>() == 0) {
 
-- 
2.43.0


From 041d361cfa320c857216c6ad3f0be6ec43300104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:27 +0000
Subject: [PATCH 25/34] fix: Python floats are stored without rounding them to
 float

---
 src/pybind11/pyvotess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybind11/pyvotess.cpp b/src/pybind11/pyvotess.cpp
index 75d26a7..a6ddf5e 100644
--- a/src/pybind11/pyvotess.cpp
+++ b/src/pybind11/pyvotess.cpp
@@ -43,7 +43,7 @@ pybind11::class_<votess::vtargs>(module, "vtargs")
     if (pybind11::isinstance<pybind11::int_>(value)) {
       self[key] = value.cast<int>();
     } else if (pybind11::isinstance<pybind11::float_>(value)) {
-      self[key] = value.cast<float>();
+      self[key] = value.cast<double>();
     } else if (pybind11::isinstance<pybind11::str>(value)) {
       self[key] = value.cast<std::string>();
     } else if (pybind11::isinstance<pybind11::bool_>(value)) {
-- 
2.43.0


From cc6dbea7efa3fe9fc723703648537904252e03b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:48 +0000
Subject: [PATCH 26/34] fix: keep the grid spacing in the coordinate type when
 bounding the ring search

---
 src/knn.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/knn.ipp b/src/knn.ipp
index c193a2a..d383858 100644
--- a/src/knn.ipp
+++ b/src/knn.ipp
@@ -48,7 +48,7 @@ void knni::compute(
 
   const auto k = args.k;
   const auto gr = args.grid_resolution;
-  const auto gl = 1.0f / args.grid_resolution;
+  const Tf gl = 1.0f / args.grid_resolution;
 
   const Ti h0 = k * i;
 
@@ -152,7 +152,7 @@ void knni::compute(
 
   const auto k = args.k;
   const auto gr = args.grid_resolution;
-  const auto gl = 1.0f / args.grid_resolution;
+  const Tf gl = 1.0f / args.grid_resolution;
 
   const Ti h0 = k * i;
 
-- 
2.43.0


From 4fbe8e6d43a56a3afc01f65db16d35f9bef2c22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:34 +0000
Subject: [PATCH 27/34] fix: join the started threads when starting another one
 fails instead of terminating

---
 src/votess.ipp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/votess.ipp b/src/votess.ipp
index 5e46687..d267871 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -81,6 +81,15 @@ namespace votess {
 /// Tesellate Internal Functions                                            ///
 ///////////////////////////////////////////////////////////////////////////////
 
+// joins the threads that were started when starting another one fails:
+// destroying a running thread would end the program.
+struct thread_guard {
+  std::vector<std::thread>& threads;
+  ~thread_guard() {
+    for (auto& thread : threads) if (thread.joinable()) thread.join();
+  }
+};
+
 // NOTE: This is the source of continuosly increasing memory for long runs
 template <typename Ti>
 static void 
@@ -433,6 +442,7 @@ __cpu__tesellate(
     const auto args_cc  = args.get_cc();
 
     std::vector<std::thread> threads(nthreads);
+    const thread_guard guard{threads};
     for (size_t i = 0; i < nthreads; i++) {
 
       const size_t _tstart = i * threadsize;
@@ -597,6 +607,7 @@ __cpu__recompute(
     const auto args_cc  = args.get_cc();
 
     std::vector<std::thread> threads(nthreads);
+    const thread_guard guard{threads};
     for (size_t i = 0; i < nthreads; i++) {
 
       const size_t _tstart = i * threadsize;
-- 
2.43.0


From 1bb7728897603f6195da7fccc29c800c6d02674e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:27 +0000
Subject: [PATCH 28/34] fix: run with one thread where the number of hardware
 threads is not known

---
 src/votess.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index d267871..b82f8a0 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -5,6 +5,7 @@
 #include <knn.hpp>
 #include <cc.hpp>
 
+#include <algorithm>
 #include <iostream>
 #include <chrono>
 
@@ -389,7 +390,7 @@ __cpu__tesellate(
 
   const size_t nthreads = args["cpu_nthreads"].get<size_t>() != 0 ?
                           args["cpu_nthreads"] : 
-                          std::thread::hardware_concurrency(); 
+                          std::max(1u, std::thread::hardware_concurrency()); 
 
   const int chunksize = args["use_chunking"].get<bool>() ? 
                         args["chunksize"] : refsize + 1;
@@ -514,7 +515,7 @@ __cpu__recompute(
 
   const size_t nthreads = args["cpu_nthreads"].get<size_t>() != 0 ?
                           args["cpu_nthreads"] : 
-                          std::thread::hardware_concurrency(); 
+                          std::max(1u, std::thread::hardware_concurrency()); 
 
   Ti subsize = 0;
   for (auto& s : states) {
-- 
2.43.0


From 41d4dce2ad7f0e4f045fcba9d660940d00c4cd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:27 +0000
Subject: [PATCH 29/34] fix: reject grid resolutions whose cells cannot be
 numbered

---
 src/votess.ipp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/votess.ipp b/src/votess.ipp
index b82f8a0..41bdaab 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -6,6 +6,9 @@
 #include <cc.hpp>
 
 #include <algorithm>
+#include <cmath>
+#include <limits>
+#include <stdexcept>
 #include <iostream>
 #include <chrono>
 
@@ -679,6 +682,15 @@ tesellate(
   "Template type Tf must be a floating-point type."
   );
 
+  // the cells are numbered with int and Ti
+  const int gr = args["knn_grid_resolution"];
+  const double gr_max = std::cbrt(std::min<double>(
+    std::numeric_limits<int>::max(), std::numeric_limits<Ti>::max()
+  ));
+  if (gr < 1 || gr > gr_max) {
+    throw std::invalid_argument("knn_grid_resolution is out of range");
+  }
+
   const auto [id,offset] = xyzset::sort<Ti,Tf>(xyzset, args.get_xyzset());
 
   // TODO : Make errors actually good
-- 
2.43.0


From 26274f6d45c01c09ea397c91233c34b56c7df167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:27 +0000
Subject: [PATCH 30/34] fix: bring work-array sizes into range before
 multiplying them

---
 src/votess.ipp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/votess.ipp b/src/votess.ipp
index 41bdaab..f83fa49 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -713,6 +713,13 @@ tesellate(
   const int k_max = refsize > 2 ? static_cast<int>(refsize - 1) : 1;
   if (k < 1 || k > k_max) args["k"] = k < 1 ? 1 : k_max;
 
+  // no cell has more planes than there are plane indices, nor more triangles
+  // than these allow: larger work arrays would only exhaust memory.
+  const int p_limit = boundary::bstatus::undefined;
+  const int t_limit = 2 * p_limit;
+  args["cc_p_maxsize"] = std::clamp<int>(args["cc_p_maxsize"], 0, p_limit);
+  args["cc_t_maxsize"] = std::clamp<int>(args["cc_t_maxsize"], 0, t_limit);
+
   std::vector<std::vector<Ti>>  tmpnn(refsize);
   std::vector<struct cc::state> states(refsize);
 
-- 
2.43.0


From 39bb2416c72fe6a93edaa522efce3c3f4d96a8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:27 +0000
Subject: [PATCH 31/34] fix: compute the sizes of large work-groups without
 overflow

---
 src/votess.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index f83fa49..13fe1d1 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -302,13 +302,13 @@ __gpu__tesellate(
       auto astates = accessor(bstates, cgh, read_write);
 
       sycl::local_accessor<Tu, 1> 
-      ldR(sycl::range<1>(ndsize * p_maxsize), cgh);
+      ldR(sycl::range<1>(static_cast<size_t>(ndsize) * p_maxsize), cgh);
 
       auto aargs_knn = args_knn;
       auto aargs_cc = args_cc;
 
       // the global range must be a multiple of the work group size
-      const size_t ngroups = (subsize + ndsize - 1) / ndsize;
+      const size_t ngroups = subsize / ndsize + (subsize % ndsize != 0);
 
       cgh.parallel_for<class __sycl__tessellate>
       (sycl::nd_range<1>(sycl::range<1>(ngroups * ndsize), 
-- 
2.43.0


From 98229b81412e993bcd75af9380eb5ffc20ccfd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:27 +0000
Subject: [PATCH 32/34] fix: find the grid cell of coordinates that no integer
 can hold

---
 src/xyzset.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xyzset.ipp b/src/xyzset.ipp
index c9f531a..d8e6329 100644
--- a/src/xyzset.ipp
+++ b/src/xyzset.ipp
@@ -17,8 +17,8 @@ inline T2 get_distance(
 // coordinate next to 1 out of the grid.
 template <typename T1, typename T2>
 inline T1 cell_index(const T2 x, const T2 gl, const int gr) {
-  const T1 c = static_cast<T1>(std::floor(x / gl));
-  return c < 0 ? 0 : (c < gr ? c : gr - 1);
+  const T2 c = std::floor(x / gl);
+  return !(c >= 0) ? 0 : (c < gr ? static_cast<T1>(c) : gr - 1);
 }
 
 template <typename T1, typename T2>
-- 
2.43.0


From c121ea121f9e95800abaea24980595ece8bde518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:27 +0000
Subject: [PATCH 33/34] fix: report coordinates that are not a number as
 invalid

---
 src/xyzset.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xyzset.ipp b/src/xyzset.ipp
index d8e6329..ab57c8d 100644
--- a/src/xyzset.ipp
+++ b/src/xyzset.ipp
@@ -82,7 +82,7 @@ bool
 validate_xyzset(const std::vector<std::array<T2,3>>& xyzset) {
   for (size_t i = 0; i < xyzset.size(); i++) {
     for (size_t j = 0; j < xyzset[0].size(); j++) {
-      if (xyzset[i][j] >= 1.0f || xyzset[i][j] <= 0.0f) {
+      if (!(xyzset[i][j] < 1.0f && xyzset[i][j] > 0.0f)) {
         return false;
       }
     }
-- 
2.43.0


From b00ac08f348722c4dd22bf7fe1366afee52567a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:27 +0000
Subject: [PATCH 34/34] fix: the GPU search also finds points far outside the
 cube

---
 src/votess.ipp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index 13fe1d1..74d6400 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -22,8 +22,6 @@
 
 #include <thread>
 
-#define FP_INFINITY 128.00f
-
 static inline void 
 print_device(const sycl::queue& queue, std::ostream& out) {
 
@@ -258,7 +256,7 @@ __gpu__tesellate(
       auto a = sycl::accessor(bheap_pq, cgh, sycl::write_only, sycl::no_init);
       cgh.parallel_for<class fill_heap_pq>
       (sycl::range<1>(bheap_pq.size()), [=](sycl::id<1> idx) {
-        a[idx] = FP_INFINITY;
+        a[idx] = std::numeric_limits<Tf>::max();
       });
     });
 
-- 
2.43.0

