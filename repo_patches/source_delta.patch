From 194cb59024bbe3de62742ff4a4dcb3d9614b222c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:31 +0000
Subject: [PATCH 01/26] fix: measure all J2 bonds of the triangular J1-J2 model
 with a valid boundary window

EvaluateObservables traced a single-row boundary tensor that InitBTen2 had
discarded (out-of-range access), evaluated the (0,0)-(1,1) J2 bonds after the
two-row window had been shifted to the end, and left out the horizontal
sqrt(5) J2 bonds, so the measured energy was not the model's energy.
---
 ..._onehalf_triangle_heisenbergJ1J2_sqrpeps.h | 29 ++++++++++++-------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h b/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h
index 79da7cf..36c40f9 100644
--- a/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h
+++ b/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h
@@ -169,8 +169,6 @@ class SpinOneHalfTriJ1J2HeisenbergSqrPEPS : public ModelEnergySolver<SpinOneHalf
         // Triangular J1 diagonal (↘)
         contractor.InitBTen2(tn, LEFT, row);
         contractor.GrowFullBTen2(tn, RIGHT, row, 2, true);
-        auto psi2 = contractor.Trace(tn, {row, 0}, HORIZONTAL);
-        auto inv_psi2 = TenElemT(1.0) / psi2;
         for (size_t col = 0; col + 1 < lx; ++col) {
           const SiteIdx ld{row + 1, col};
           const SiteIdx ru{row, col + 1};
@@ -181,27 +179,38 @@ class SpinOneHalfTriJ1J2HeisenbergSqrPEPS : public ModelEnergySolver<SpinOneHalf
             TenElemT psi_ex = contractor.ReplaceNNNSiteTrace(tn, {row, col}, LEFTDOWN_TO_RIGHTUP, HORIZONTAL,
                                                      (*split_index_tps)(ld)[config(ru)],
                                                      (*split_index_tps)(ru)[config(ld)]);
-            eb = (-0.25 + ComplexConjugate(psi_ex * inv_psi2) * 0.5);
+            eb = (-0.25 + ComplexConjugate(psi_ex * inv_psi) * 0.5);
           }
           if (e_ur.size() != 0) {
             e_ur(row, col) = eb;
           }
           energy_total += eb;
-          if (col + 2 < lx) contractor.ShiftBTen2Window(tn, RIGHT, row);
-        }
 
-        // J2 contribution on the same row window (left-up to right-down)
-        for (size_t col = 0; col + 1 < lx; ++col) {
-          SiteIdx s1{row, col};
-          SiteIdx s2{row + 1, col + 1};
+          // J2 contribution on the same row window (left-up to right-down)
+          const SiteIdx s1{row, col};
+          const SiteIdx s2{row + 1, col + 1};
           if (config(s1) == config(s2)) {
             energy_j2_total += TenElemT(0.25);
           } else {
             TenElemT psi_ex = contractor.ReplaceNNNSiteTrace(tn, {row, col}, LEFTUP_TO_RIGHTDOWN, HORIZONTAL,
                                                      (*split_index_tps)(s1)[config(s2)],
                                                      (*split_index_tps)(s2)[config(s1)]);
-            energy_j2_total += (-0.25 + ComplexConjugate(psi_ex * inv_psi2) * 0.5);
+            energy_j2_total += (-0.25 + ComplexConjugate(psi_ex * inv_psi) * 0.5);
+          }
+
+          // J2 horizontal window (sqrt(5) separation)
+          if (col + 2 < lx) {
+            const SiteIdx ru2{row, col + 2};
+            if (config(ld) == config(ru2)) {
+              energy_j2_total += TenElemT(0.25);
+            } else {
+              TenElemT psi_ex = contractor.ReplaceSqrt5DistTwoSiteTrace(tn, {row, col}, LEFTDOWN_TO_RIGHTUP, HORIZONTAL,
+                                                                (*split_index_tps)(ld)[config(ru2)],
+                                                                (*split_index_tps)(ru2)[config(ld)]);
+              energy_j2_total += (-0.25 + ComplexConjugate(psi_ex * inv_psi) * 0.5);
+            }
           }
+          contractor.ShiftBTen2Window(tn, RIGHT, row);
         }
         contractor.ShiftBMPSWindow(tn, DOWN);
       }
-- 
2.43.0


From d1c94da89ca7bc906b2d38ab29ce187ea23d271c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:10 +0000
Subject: [PATCH 02/26] fix: triangular J1-J2 solver works on lattices with two
 rows

With fewer than three rows there are no vertical sqrt(5) bonds; growing their
two-column window ran off the lattice.
---
 .../spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h     | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h b/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h
index 36c40f9..9b88efc 100644
--- a/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h
+++ b/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h
@@ -244,7 +244,7 @@ class SpinOneHalfTriJ1J2HeisenbergSqrPEPS : public ModelEnergySolver<SpinOneHalf
       }
 
       // J2 vertical window (sqrt(5) separation)
-      if (col + 1 < lx) {
+      if (col + 1 < lx && ly > 2) {
         contractor.InitBTen2(tn, UP, col);
         contractor.GrowFullBTen2(tn, DOWN, col, 3, true);
         for (size_t row = 0; row + 2 < ly; ++row) {
@@ -430,10 +430,12 @@ CalEnergyAndHolesImpl(const SplitIndexTPS<TenElemT, QNT> *split_index_tps,
       }
     }
     if (col < tn.cols() - 1) {
-      contractor.InitBTen2(tn, UP, col);
-      contractor.GrowFullBTen2(tn, DOWN, col, 3, true);
+      if (tn.rows() > 2) {
+        contractor.InitBTen2(tn, UP, col);
+        contractor.GrowFullBTen2(tn, DOWN, col, 3, true);
+      }
       //Calculate J2 energy contribution
-      for (size_t row = 0; row < tn.rows() - 2; row++) {
+      for (size_t row = 0; row + 2 < tn.rows(); row++) {
         const SiteIdx site1 = {row + 2, col};
         const SiteIdx site2 = {row, col + 1};
         if (config(site1) == config(site2)) {
-- 
2.43.0


From ccec3d020400f07ccea429bc88389f0c1dd989af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:57 +0000
Subject: [PATCH 03/26] fix: SplitIndexTPS::Dump reports tensors that could not
 be written

DumpTen ignored errors that only appear when the stream is closed and Dump
ignored DumpTen's result, so a full disk left a truncated state behind a
successful return.
---
 include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h b/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
index 441f560..659a197 100644
--- a/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
+++ b/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
@@ -277,7 +277,7 @@ bool SplitIndexTPS<TenElemT, QNT>::DumpTen(const size_t row,
     return false; // Failed to write the tensor to the file
   }
   ofs.close();
-  return true; // Successfully dumped the tensor
+  return !ofs.fail(); // The buffered data may only fail to reach the disk here
 }
 
 template<typename TenElemT, typename QNT>
@@ -306,7 +306,9 @@ void SplitIndexTPS<TenElemT, QNT>::Dump(const std::string &tps_path, const bool
     for (size_t col = 0; col < this->cols(); ++col) {
       for (size_t compt = 0; compt < phy_dim; compt++) {
         file = GenSplitIndexTPSTenName(tps_path, row, col, compt);
-        this->DumpTen(row, col, compt, file);
+        if (!this->DumpTen(row, col, compt, file)) {
+          throw std::ios_base::failure("Failed to dump tensor to file: " + file);
+        }
       }
       if (release_mem) {
         this->dealloc(row, col);
-- 
2.43.0


From 81cd344ff4d7e3696e8e96b3d358597fc602e09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:34 +0000
Subject: [PATCH 04/26] fix: an interrupted SplitIndexTPS::Dump never loads as
 a mixture of two states

The metadata of an older dump in the same directory stayed valid while its
tensors were being overwritten, and a torn metadata file was read as the
older three-field format. The mark of a complete dump is now removed first
and renamed into place last.
---
 include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h b/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
index 659a197..f626852 100644
--- a/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
+++ b/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
@@ -11,6 +11,7 @@
 #include <complex>    // real
 #include <cstring>    // memcpy
 #include <cstdint>    // uint64_t
+#include <cstdio>     // remove, rename
 #include <stdexcept>  // runtime_error
 #include "qlpeps/utility/filesystem_utils.h"
 
@@ -302,6 +303,12 @@ void SplitIndexTPS<TenElemT, QNT>::Dump(const std::string &tps_path, const bool
   EnsureDirectoryExists(tps_path);
   std::string file;
   const size_t phy_dim = (*this)({0, 0}).size();
+  // The metadata file marks a complete dump: drop the mark of an older dump before its
+  // tensors are overwritten, and set the new one only after all tensors are written.
+  const std::string meta_file = tps_path + "/" + "tps_meta.txt";
+  if (std::remove(meta_file.c_str()) != 0 && IsPathExist(meta_file)) {
+    throw std::ios_base::failure("Failed to remove outdated metadata file: " + meta_file);
+  }
   for (size_t row = 0; row < this->rows(); ++row) {
     for (size_t col = 0; col < this->cols(); ++col) {
       for (size_t compt = 0; compt < phy_dim; compt++) {
@@ -316,7 +323,7 @@ void SplitIndexTPS<TenElemT, QNT>::Dump(const std::string &tps_path, const bool
     }
   }
 
-  file = tps_path + "/" + "tps_meta.txt";
+  file = meta_file + ".tmp";
   std::ofstream ofs(file, std::ofstream::binary);
   if (!ofs.is_open()) {
     throw std::ios_base::failure("Failed to open metadata file: " + file);
@@ -329,6 +336,9 @@ void SplitIndexTPS<TenElemT, QNT>::Dump(const std::string &tps_path, const bool
   if (ofs.fail()) {
     throw std::ios_base::failure("Failed to close metadata file: " + file);
   }
+  if (std::rename(file.c_str(), meta_file.c_str()) != 0) {
+    throw std::ios_base::failure("Failed to create metadata file: " + meta_file);
+  }
 }
 
 template<typename TenElemT, typename QNT>
-- 
2.43.0


From 92d4425196d8870048936aae6a6ad4d7cde75c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:20 +0000
Subject: [PATCH 05/26] fix: TPS::Dump and DumpTen report tensors that could
 not be written

---
 include/qlpeps/two_dim_tn/framework/ten_matrix.h | 5 ++++-
 include/qlpeps/two_dim_tn/tps/tps_impl.h         | 8 +++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/qlpeps/two_dim_tn/framework/ten_matrix.h b/include/qlpeps/two_dim_tn/framework/ten_matrix.h
index 60543d4..d764e54 100644
--- a/include/qlpeps/two_dim_tn/framework/ten_matrix.h
+++ b/include/qlpeps/two_dim_tn/framework/ten_matrix.h
@@ -104,7 +104,7 @@ class TenMatrix : public DuoMatrix<TenT> {
       return false; // Failed to write the tensor to the file
     }
     ofs.close();
-    return true; // Successfully dumped the tensor
+    return !ofs.fail(); // The buffered data may only fail to reach the disk here
   }
 
   /**
@@ -125,6 +125,9 @@ class TenMatrix : public DuoMatrix<TenT> {
       return false; // Failed to write the tensor to the file
     }
     ofs.close();
+    if (ofs.fail()) {
+      return false; // The buffered data may only fail to reach the disk here
+    }
     if (release_mem) {
       this->dealloc(row, col);
     }
diff --git a/include/qlpeps/two_dim_tn/tps/tps_impl.h b/include/qlpeps/two_dim_tn/tps/tps_impl.h
index 758a94c..8aba6e0 100644
--- a/include/qlpeps/two_dim_tn/tps/tps_impl.h
+++ b/include/qlpeps/two_dim_tn/tps/tps_impl.h
@@ -109,12 +109,18 @@ void TPS<TenElemT, QNT>::Dump(const std::string &tps_path, const bool release_me
     if (ofs) {
       ofs << this->rows() << " " << this->cols() << " " << static_cast<int>(boundary_condition_) << std::endl;
     }
+    ofs.close();
+    if (ofs.fail()) {
+      throw std::ios_base::failure("Failed to write metadata file: " + meta_file);
+    }
   }
   std::string file;
   for (size_t row = 0; row < this->rows(); ++row) {
     for (size_t col = 0; col < this->cols(); ++col) {
       file = GenTPSTenName(tps_path, row, col);
-      this->DumpTen(row, col, file, release_mem);
+      if (!this->DumpTen(row, col, file, release_mem)) {
+        throw std::ios_base::failure("Failed to dump tensor to file: " + file);
+      }
     }
   }
 }
-- 
2.43.0


From 41843999449c057c7e24aa14cdcb761a72be248f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:20 +0000
Subject: [PATCH 06/26] fix: SquareLatticePEPS::Dump(path) const writes where
 Load(path) reads

---
 .../qlpeps/two_dim_tn/peps/square_lattice_peps_basic_impl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/qlpeps/two_dim_tn/peps/square_lattice_peps_basic_impl.h b/include/qlpeps/two_dim_tn/peps/square_lattice_peps_basic_impl.h
index debc724..538c85c 100644
--- a/include/qlpeps/two_dim_tn/peps/square_lattice_peps_basic_impl.h
+++ b/include/qlpeps/two_dim_tn/peps/square_lattice_peps_basic_impl.h
@@ -400,7 +400,7 @@ bool SquareLatticePEPS<TenElemT, QNT>::Dump(const std::string path) const {
   EnsureDirectoryExists(path);
   for (size_t row = 0; row < rows_; ++row) {
     for (size_t col = 0; col < cols_; ++col) {
-      std::string filename = path + "gamma_ten_" + std::to_string(row) + "-" + std::to_string(col) + ".qlten";
+      std::string filename = path + "/gamma_ten_" + std::to_string(row) + "-" + std::to_string(col) + ".qlten";
       if (!Gamma.DumpTen(row, col, filename)) {
         std::cout << "Failed to dump tensor from file: " << filename << std::endl;
         return false; // Failed to dump Gamma tensor
@@ -410,7 +410,7 @@ bool SquareLatticePEPS<TenElemT, QNT>::Dump(const std::string path) const {
 
   for (size_t row = 0; row < lambda_vert.rows(); ++row) {
     for (size_t col = 0; col < lambda_vert.cols(); ++col) {
-      std::string filename = path + "lam_v_" + std::to_string(row) + "-" + std::to_string(col) + ".qlten";
+      std::string filename = path + "/lam_v_" + std::to_string(row) + "-" + std::to_string(col) + ".qlten";
       if (!lambda_vert.DumpTen(row, col, filename)) {
         std::cout << "Failed to dump tensor from file: " << filename << std::endl;
         return false; // Failed to dump lambda_vert tensor
@@ -420,7 +420,7 @@ bool SquareLatticePEPS<TenElemT, QNT>::Dump(const std::string path) const {
 
   for (size_t row = 0; row < lambda_horiz.rows(); ++row) {
     for (size_t col = 0; col < lambda_horiz.cols(); ++col) {
-      std::string filename = path + "lam_h_" + std::to_string(row) + "-" + std::to_string(col) + ".qlten";
+      std::string filename = path + "/lam_h_" + std::to_string(row) + "-" + std::to_string(col) + ".qlten";
       if (!lambda_horiz.DumpTen(row, col, filename)) {
         std::cout << "Failed to dump tensor from file: " << filename << std::endl;
         return false; // Failed to dump lambda_horiz tensor
-- 
2.43.0


From 0afcf597e9c389c9e72e21e58f4a7dc8b51230e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:18 +0000
Subject: [PATCH 07/26] fix: GatherStatisticSingleData error is never NaN when
 ranks (nearly) agree

---
 include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h b/include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h
index 6b6946d..bc1fb0b 100644
--- a/include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h
+++ b/include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h
@@ -264,9 +264,9 @@ std::pair<ElemT, typename qlten::RealTypeTrait<ElemT>::type> GatherStatisticSing
     if (comm_size > 1) {
       RealT sum_square = 0.0;
       for (size_t i = 0; i < comm_size; i++) {
-        sum_square += static_cast<RealT>(std::norm(gather_data[i]));
+        sum_square += static_cast<RealT>(std::norm(gather_data[i] - mean));
       }
-      RealT variance = sum_square / static_cast<RealT>(comm_size) - static_cast<RealT>(std::norm(mean));
+      RealT variance = sum_square / static_cast<RealT>(comm_size);
       standard_err = std::sqrt(variance / (static_cast<RealT>(comm_size) - 1));
 
       // Check if standard error is infinite and output warning with data
-- 
2.43.0


From 12031d0e3eaf8aa202d4046031f671ff333a197b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:26 +0000
Subject: [PATCH 08/26] fix: measurement statistics are gathered in the same
 key order on every rank

---
 .../vmc_update/monte_carlo_peps_measurer_impl.h      | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h b/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h
index 97fb9db..e36ee28 100644
--- a/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h
+++ b/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h
@@ -245,10 +245,16 @@ void MCPEPSMeasurer<TenElemT, QNT, MonteCarloSweepUpdater, MeasurementSolver, Co
 
   // Aggregate registry-based observables
   auto local_registry = sample_data_.StatisticRegistry();
-  // Then gather all keys into registry_stats_
+  // Then gather all keys into registry_stats_. The gather is collective, so every rank must visit
+  // the keys in the same order; the iteration order of the unordered map does not guarantee that.
+  std::vector<std::string> keys;
+  keys.reserve(local_registry.size());
   for (const auto &kv : local_registry) {
-    const std::string &key = kv.first;
-    const std::vector<TenElemT> &local_mean = kv.second.first;
+    keys.push_back(kv.first);
+  }
+  std::sort(keys.begin(), keys.end());
+  for (const std::string &key : keys) {
+    const std::vector<TenElemT> &local_mean = local_registry.at(key).first;
     std::vector<TenElemT> global_mean;
     std::vector<double> global_stderr;
     GatherStatisticListOfData(local_mean, engine_.Comm(), global_mean, global_stderr);
-- 
2.43.0


From ddfcc97052658a35fe324588b16a71d5953f2c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:26 +0000
Subject: [PATCH 09/26] fix: TFIM and triangular J1-J2 solvers report psi to
 samples/psi.csv instead of zeros

---
 .../spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h            | 4 +++-
 .../model_solvers/transverse_field_ising_square_obc.h         | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h b/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h
index 9b88efc..330d62a 100644
--- a/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h
+++ b/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h
@@ -268,7 +268,9 @@ class SpinOneHalfTriJ1J2HeisenbergSqrPEPS : public ModelEnergySolver<SpinOneHalf
     if (e_h.size() != 0) out["bond_energy_h"] = e_h.Extract();
     if (e_v.size() != 0) out["bond_energy_v"] = e_v.Extract();
     if (e_ur.size() != 0) out["bond_energy_ur"] = e_ur.Extract();
-    // psi_list is not emitted via registry; Measurer computes PsiSummary separately
+    // psi_list is not emitted via registry; cache its summary for the Measurer to consume
+    auto psi_summary = this->template ComputePsiSummary<TenElemT>(psi_list);
+    this->template SetLastPsiSummary<TenElemT>(psi_summary.psi_mean, psi_summary.psi_rel_err);
 
     // All-to-all SzSz packed
     {
diff --git a/include/qlpeps/algorithm/vmc_update/model_solvers/transverse_field_ising_square_obc.h b/include/qlpeps/algorithm/vmc_update/model_solvers/transverse_field_ising_square_obc.h
index 62e1ef3..f10b16e 100644
--- a/include/qlpeps/algorithm/vmc_update/model_solvers/transverse_field_ising_square_obc.h
+++ b/include/qlpeps/algorithm/vmc_update/model_solvers/transverse_field_ising_square_obc.h
@@ -131,7 +131,9 @@ class TransverseFieldIsingSquareOBC : public ModelEnergySolver<TransverseFieldIs
 
     out["sigma_x"] = sigma_x_mat.Extract();
     if (!two_point.empty()) out["SzSz_row"] = std::move(two_point);
-    // psi_list is not emitted via registry; Measurer computes PsiSummary separately
+    // psi_list is not emitted via registry; cache its summary for the Measurer to consume
+    auto psi_summary = this->template ComputePsiSummary<TenElemT>(psi_list);
+    this->template SetLastPsiSummary<TenElemT>(psi_summary.psi_mean, psi_summary.psi_rel_err);
 
     // Diagonal bond energies omitted by default; can be enabled if needed later
     return out;
-- 
2.43.0


From 54d8a3e67568bf491c93991faa9e7a7f66b1c99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:55 +0000
Subject: [PATCH 10/26] fix: configuration dumps resume through
 MonteCarloParams, interrupted dumps are refused and a refused Load changes
 nothing

---
 include/qlpeps/vmc_basic/configuration.h | 45 ++++++++++++++++++------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/include/qlpeps/vmc_basic/configuration.h b/include/qlpeps/vmc_basic/configuration.h
index ada76dd..d6681b5 100644
--- a/include/qlpeps/vmc_basic/configuration.h
+++ b/include/qlpeps/vmc_basic/configuration.h
@@ -284,6 +284,26 @@ class Configuration : public DuoMatrix<size_t>, public Showable, public Streamab
   void Dump(const std::string &directory, const size_t label) {
     EnsureDirectoryExists(directory);
     std::string file = directory + "/configuration" + std::to_string(label);
+    const std::string shape_file = file + ".shape";
+
+    // Remove what an earlier dump left here and write the shape before the payload, so that an
+    // interrupted dump never leaves a payload next to the shape of another lattice.
+    std::error_code ec;
+    std::filesystem::remove(file, ec);
+    std::filesystem::remove(shape_file, ec);
+
+    // Best-effort: write sidecar shape metadata (no exception thrown here)
+    {
+      std::ofstream sofs(shape_file, std::ofstream::out);
+      if (sofs.is_open()) {
+        sofs << this->rows() << " " << this->cols() << "\n";
+        sofs.close();
+        if (sofs.fail()) {
+          std::filesystem::remove(shape_file, ec); // an incomplete sidecar would make Load refuse the payload
+        }
+      }
+    }
+
     std::ofstream ofs(file, std::ofstream::binary);
     if (!ofs.is_open()) {
       throw std::ios_base::failure("Failed to open file: " + file);
@@ -298,14 +318,6 @@ class Configuration : public DuoMatrix<size_t>, public Showable, public Streamab
     if (ofs.fail()) {
       throw std::ios_base::failure("Failed to close file: " + file);
     }
-
-    // Best-effort: write sidecar shape metadata (no exception thrown here)
-    std::string shape_file = file + ".shape";
-    std::ofstream sofs(shape_file, std::ofstream::out);
-    if (sofs.is_open()) {
-      sofs << this->rows() << " " << this->cols() << "\n";
-      sofs.close();
-    }
   }
 
   /// @brief Save configuration to a specific file name (no label involved)
@@ -347,7 +359,9 @@ class Configuration : public DuoMatrix<size_t>, public Showable, public Streamab
    * and loads from `path + "/configuration" + label`.
    * - If a sidecar file "<file>.shape" exists, its (rows, cols) must match the
    *   current object's size; mismatch returns false without throwing.
-   * - Any I/O or parse failure returns false. No exception is thrown from this function.
+   *   An empty (default constructed) object takes its size from the sidecar.
+   * - Any I/O or parse failure returns false and leaves the object unchanged.
+   *   No exception is thrown from this function.
    *
    * @param directory Directory path
    * @param label Label of the file in the directory (e.g., MPI rank)
@@ -357,6 +371,7 @@ class Configuration : public DuoMatrix<size_t>, public Showable, public Streamab
     // Directory-only semantics: construct file path deterministically
     std::string file = directory + "/configuration" + std::to_string(label);
 
+    size_t load_rows = this->rows(), load_cols = this->cols();
     // If shape sidecar exists, check dimensions first; old version of the file may not have this sidecar
     {
       std::string shape_file = file + ".shape";
@@ -366,19 +381,26 @@ class Configuration : public DuoMatrix<size_t>, public Showable, public Streamab
         if (!(sifs >> rows >> cols)) {
           return false;
         }
-        if (rows != this->rows() || cols != this->cols()) {
+        if (this->size() == 0) { // empty object: adopt the recorded shape
+          load_rows = rows;
+          load_cols = cols;
+        } else if (rows != this->rows() || cols != this->cols()) {
           return false;
         }
       }
     }
+    if (load_rows == 0 || load_cols == 0) {
+      return false; // neither the object nor a sidecar tells the lattice size
+    }
 
     // Now read the main data payload; convert failures into false
     std::ifstream ifs(file, std::ifstream::binary);
     if (!ifs.is_open()) {
       return false;
     }
+    Configuration loaded(load_rows, load_cols); // keep *this intact unless the whole payload is read
     try {
-      ifs >> (*this);
+      ifs >> loaded;
     } catch (...) {
       ifs.close();
       return false;
@@ -388,6 +410,7 @@ class Configuration : public DuoMatrix<size_t>, public Showable, public Streamab
       return false;
     }
     ifs.close();
+    *this = loaded;
     return true;
   }
 
-- 
2.43.0


From d3518eea1b8b0eda7c3a1076e74cd8f4529fdf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:59 +0000
Subject: [PATCH 11/26] fix: measurement result files that could not be written
 are reported

---
 .../vmc_update/monte_carlo_peps_measurer.h    | 12 +++++--
 .../monte_carlo_peps_measurer_impl.h          | 32 +++++++++++++++----
 2 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer.h b/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer.h
index 31840c5..5ec2b57 100644
--- a/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer.h
+++ b/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer.h
@@ -184,7 +184,7 @@ void PrintProgressBar(size_t progress, size_t total) {
       * Each row corresponds to a single sample; columns are elements of the inner vector.
       * Use registry-aware DumpStats* helpers for observable statistics instead.
       *
-      * @throws std::ios_base::failure If the file cannot be opened for writing.
+      * @throws std::ios_base::failure If the file cannot be opened or written.
       */
 template<typename TenElemT>
 void DumpSampleData(const std::vector<std::vector<TenElemT>> sample_data, const std::string &filename) {
@@ -205,6 +205,9 @@ void DumpSampleData(const std::vector<std::vector<TenElemT>> sample_data, const
   }
 
   file.close();
+  if (file.fail()) {
+    throw std::ios_base::failure("Failed to write file: " + filename);
+  }
 }
 
 template<typename TenElemT, typename QNT, typename MonteCarloSweepUpdater, typename MeasurementSolver,
@@ -408,12 +411,17 @@ class MCPEPSMeasurer : public qlten::Executor {
     const std::string samples_dir = dir + "samples/";
     engine_.EnsureDirectoryExists(samples_dir + "dummy");
     if (!is_master) return;
-    std::ofstream ofs(samples_dir + "psi.csv");
+    const std::string path = samples_dir + "psi.csv";
+    std::ofstream ofs(path);
     ofs << "sample_id,psi_mean_re,psi_mean_im,psi_rel_err\n";
     for (size_t i = 0; i < psi_samples_.size(); ++i) {
       ofs << i << "," << std::real(psi_samples_[i].first) << "," << std::imag(psi_samples_[i].first)
           << "," << psi_samples_[i].second << "\n";
     }
+    ofs.close();
+    if (ofs.fail()) {
+      throw std::runtime_error("Failed to write file: " + path);
+    }
   }
 };//MCPEPSMeasurer
 
diff --git a/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h b/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h
index e36ee28..67fb2de 100644
--- a/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h
+++ b/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h
@@ -21,6 +21,14 @@ inline void ConfigureStreamForHighPrecision(std::ofstream &ofs) {
   ofs << std::setprecision(std::numeric_limits<double>::max_digits10);
 }
 
+// Close a result file and report anything (e.g. a full disk) that kept it from being written.
+inline void CloseResultFile(std::ofstream &ofs, const std::string &path) {
+  ofs.close();
+  if (ofs.fail()) {
+    throw std::runtime_error("Failed to write file: " + path);
+  }
+}
+
 inline std::string ToCsvString(double value) {
   std::ostringstream oss;
   oss.setf(std::ios::scientific, std::ios::floatfield);
@@ -346,10 +354,10 @@ MCPEPSMeasurer<TenElemT,
       for (const auto &meta : observables_meta_) {
         if (meta.coord_generator) {
           std::string content = meta.coord_generator(engine_.Ly(), engine_.Lx());
-          std::ofstream ofs(stats_dir + meta.key + "_coords.txt");
-          if (ofs.is_open()) {
-            ofs << content;
-          }
+          const std::string coords_path = stats_dir + meta.key + "_coords.txt";
+          std::ofstream ofs(coords_path);
+          ofs << content;
+          CloseResultFile(ofs, coords_path);
         }
       }
     }
@@ -379,6 +387,7 @@ DumpParticleNumberSamples_(const std::string &dir) const {
   for (size_t i = 0; i < particle_number_samples_.size(); ++i) {
     ofs << i << "," << particle_number_samples_[i] << "\n";
   }
+  CloseResultFile(ofs, path);
 }
 
 template<typename TenElemT, typename QNT, typename MonteCarloSweepUpdater, typename MeasurementSolver,
@@ -445,6 +454,7 @@ void MCPEPSMeasurer<TenElemT, QNT, MonteCarloSweepUpdater, MeasurementSolver, Co
     }
     ofs << "\n";
   }
+  CloseResultFile(ofs, metadata_path);
 }
 
 template<typename TenElemT, typename QNT, typename MonteCarloSweepUpdater, typename MeasurementSolver,
@@ -572,6 +582,7 @@ void MCPEPSMeasurer<TenElemT, QNT, MonteCarloSweepUpdater, MeasurementSolver, Co
       }
       ofs << "\n";
     }
+    CloseResultFile(ofs, mean_path);
   }
   {
     std::ofstream ofs(stderr_path);
@@ -590,6 +601,7 @@ void MCPEPSMeasurer<TenElemT, QNT, MonteCarloSweepUpdater, MeasurementSolver, Co
       }
       ofs << "\n";
     }
+    CloseResultFile(ofs, stderr_path);
   }
 }
 
@@ -600,13 +612,15 @@ void MCPEPSMeasurer<TenElemT, QNT, MonteCarloSweepUpdater, MeasurementSolver, Co
   const std::string &key,
   const std::vector<TenElemT> &vals,
   const std::vector<double> &errs) const {
-  std::ofstream ofs(dir + key + ".csv");
+  const std::string path = dir + key + ".csv";
+  std::ofstream ofs(path);
   ofs << "index,mean,stderr\n";
   ConfigureStreamForHighPrecision(ofs);
   for (size_t i = 0; i < vals.size(); ++i) {
     const double err = (i < errs.size()) ? errs[i] : 0.0;
     ofs << i << "," << ToCsvString(vals[i]) << "," << ToCsvString(err) << "\n";
   }
+  CloseResultFile(ofs, path);
 }
 
 template<typename TenElemT, typename QNT, typename MonteCarloSweepUpdater, typename MeasurementSolver,
@@ -616,13 +630,15 @@ void MCPEPSMeasurer<TenElemT, QNT, MonteCarloSweepUpdater, MeasurementSolver, Co
   const std::string &key,
   const std::vector<double> &vals,
   const std::vector<double> &errs) const {
-  std::ofstream ofs(dir + key + ".csv");
+  const std::string path = dir + key + ".csv";
+  std::ofstream ofs(path);
   ofs << "index,mean,stderr\n";
   ConfigureStreamForHighPrecision(ofs);
   for (size_t i = 0; i < vals.size(); ++i) {
     const double err = (i < errs.size()) ? errs[i] : 0.0;
     ofs << i << "," << ToCsvString(vals[i]) << "," << ToCsvString(err) << "\n";
   }
+  CloseResultFile(ofs, path);
 }
 
 template<typename TenElemT, typename QNT, typename MonteCarloSweepUpdater, typename MeasurementSolver,
@@ -632,11 +648,13 @@ void MCPEPSMeasurer<TenElemT, QNT, MonteCarloSweepUpdater, MeasurementSolver, Co
   const std::string &key,
   size_t packed_len) const {
   // Emit a text mapping describing how to reconstruct (i,j) from linear index k for upper-triangular packing
-  std::ofstream ofs(dir + key + "_index_map.txt");
+  const std::string path = dir + key + "_index_map.txt";
+  std::ofstream ofs(path);
   ofs << "# index -> (i,j) mapping for upper-triangular packed pairs (i<=j)\n";
   ofs << "# k = i*L - i*(i-1)/2 + (j - i), with L being linear size along flattening;\n";
   ofs << "# This file only documents the convention; concrete (i,j) require model-specific L.\n";
   ofs << "# length=" << packed_len << "\n";
+  CloseResultFile(ofs, path);
 }
 
 template<typename TenElemT, typename QNT, typename MonteCarloSweepUpdater, typename MeasurementSolver,
-- 
2.43.0


From 53ecaf0e5a0a8ee7d55b9a227aed59c9b3a7f510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:00 +0000
Subject: [PATCH 12/26] fix: CreatePath succeeds when another rank creates the
 directory at the same time

---
 include/qlpeps/utility/filesystem_utils.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/qlpeps/utility/filesystem_utils.h b/include/qlpeps/utility/filesystem_utils.h
index 77fff32..8e0d6f6 100644
--- a/include/qlpeps/utility/filesystem_utils.h
+++ b/include/qlpeps/utility/filesystem_utils.h
@@ -43,7 +43,8 @@ inline bool CreatePath(const std::string& path) {
     if (std::filesystem::exists(path)) return true;
     
     std::cout << "Creating directory: " << path << std::endl;
-    return std::filesystem::create_directories(path);
+    std::filesystem::create_directories(path); // returns false if another rank created it meanwhile
+    return std::filesystem::is_directory(path);
   } catch (const std::exception& e) {
     std::cerr << "Error creating directory " << path << ": " << e.what() << std::endl;
     return false;
-- 
2.43.0


From 026f6b85da26461473bdf1f09f749881c500801b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:00 +0000
Subject: [PATCH 13/26] fix: checkpoint metadata that could not be written is
 reported

---
 include/qlpeps/optimizer/optimizer_impl.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/qlpeps/optimizer/optimizer_impl.h b/include/qlpeps/optimizer/optimizer_impl.h
index e165aee..2543560 100644
--- a/include/qlpeps/optimizer/optimizer_impl.h
+++ b/include/qlpeps/optimizer/optimizer_impl.h
@@ -1995,14 +1995,16 @@ void Optimizer<TenElemT, QNT>::SaveCheckpoint_(
       // Write metadata
       std::string meta_path = dir + "/checkpoint_meta.txt";
       std::ofstream meta(meta_path);
-      if (meta) {
-        meta << "step " << step << "\n";
-        if (!energy_traj.empty()) {
-          meta << "energy " << std::setprecision(17) << std::real(energy_traj.back()) << "\n";
-        }
-        if (!error_traj.empty()) {
-          meta << "error " << std::setprecision(17) << error_traj.back() << "\n";
-        }
+      meta << "step " << step << "\n";
+      if (!energy_traj.empty()) {
+        meta << "energy " << std::setprecision(17) << std::real(energy_traj.back()) << "\n";
+      }
+      if (!error_traj.empty()) {
+        meta << "error " << std::setprecision(17) << error_traj.back() << "\n";
+      }
+      meta.close();
+      if (meta.fail()) {
+        throw std::runtime_error("Failed to write checkpoint metadata: " + meta_path);
       }
 
       WriteTrajectoryCsv_(dir + "/trajectory_snapshot.csv", energy_traj, error_traj);
-- 
2.43.0


From 6194e90a57ae08a9b920b387f3d9947997822ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:05 +0000
Subject: [PATCH 14/26] fix: an energy spike without a previous state to roll
 back to is accepted instead of retried forever

---
 include/qlpeps/optimizer/optimizer_impl.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/qlpeps/optimizer/optimizer_impl.h b/include/qlpeps/optimizer/optimizer_impl.h
index 2543560..5592b4f 100644
--- a/include/qlpeps/optimizer/optimizer_impl.h
+++ b/include/qlpeps/optimizer/optimizer_impl.h
@@ -736,10 +736,17 @@ Optimizer<TenElemT, QNT>::IterativeOptimize(
         if (rank_ == qlten::hp_numeric::kMPIMasterRank) {
           signal = DetectS4_(std::real(current_energy));
           if (signal != SpikeSignal::kNone) {
-            action = SpikeAction::kRollback;
+            // Without a previous state there is nothing to roll back to: accept, as S1-S3 do.
+            // Retrying the same state instead would never terminate for a persistent spike.
+            action = has_prev_state_ ? SpikeAction::kRollback : SpikeAction::kAcceptWithWarning;
           }
         }
         action = BroadcastAction_(action);
+        if (action == SpikeAction::kAcceptWithWarning && rank_ == qlten::hp_numeric::kMPIMasterRank) {
+          LogSpikeEvent_(iter, attempts, signal, action,
+                         std::real(current_energy),
+                         ema_energy_.Mean() + spike_cfg.sigma_k * ema_energy_.Std());
+        }
         if (action == SpikeAction::kRollback) {
           if (rank_ == qlten::hp_numeric::kMPIMasterRank) {
             LogSpikeEvent_(iter, attempts, signal, action,
-- 
2.43.0


From 2819a40b2c7a809b2a52e205b725c128ab1af194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:55 +0000
Subject: [PATCH 15/26] fix: the iteration that meets a stopping criterion is
 reported to on_iteration and the VMC trajectory

---
 include/qlpeps/optimizer/optimizer_impl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/qlpeps/optimizer/optimizer_impl.h b/include/qlpeps/optimizer/optimizer_impl.h
index 5592b4f..c6f6697 100644
--- a/include/qlpeps/optimizer/optimizer_impl.h
+++ b/include/qlpeps/optimizer/optimizer_impl.h
@@ -833,6 +833,10 @@ Optimizer<TenElemT, QNT>::IterativeOptimize(
             }
             result.converged = true;
           }
+          // The converged iteration is part of the trajectory like every other accepted one.
+          if (callback.on_iteration) {
+            callback.on_iteration(iter, current_energy_real, current_error, grad_norm);
+          }
           step_accepted = true;
           done = true;
           break;
-- 
2.43.0


From 9f9a3a791249beb45e159c51c5279bf4feb47229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:40 +0000
Subject: [PATCH 16/26] fix: complex conjugate gradient no longer takes
 round-off of a large p^dagger A p for indefiniteness

---
 include/qlpeps/utility/conjugate_gradient_solver.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/qlpeps/utility/conjugate_gradient_solver.h b/include/qlpeps/utility/conjugate_gradient_solver.h
index 857e9d3..3c45220 100644
--- a/include/qlpeps/utility/conjugate_gradient_solver.h
+++ b/include/qlpeps/utility/conjugate_gradient_solver.h
@@ -144,7 +144,8 @@ inline bool pap_is_valid(double pap) {
 }
 
 inline bool pap_is_valid(std::complex<double> pap) {
-  return pap.real() > 0.0 && std::abs(pap.imag()) < 1e-10;
+  // The imaginary part of a self-adjoint form is round-off, which grows with its magnitude.
+  return pap.real() > 0.0 && std::abs(pap.imag()) < 1e-10 * std::max(1.0, pap.real());
 }
 
 inline double real_part(double x) { return x; }
-- 
2.43.0


From a6f5ccd7cb0a5618f3848c9de5333c8689106fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:53 +0000
Subject: [PATCH 17/26] fix: Suwa-Todo update breaks ties by index, so
 degenerate weights keep the balance condition

---
 .../vmc_basic/monte_carlo_tools/suwa_todo_update.h    | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/qlpeps/vmc_basic/monte_carlo_tools/suwa_todo_update.h b/include/qlpeps/vmc_basic/monte_carlo_tools/suwa_todo_update.h
index f8d4b74..367a74e 100644
--- a/include/qlpeps/vmc_basic/monte_carlo_tools/suwa_todo_update.h
+++ b/include/qlpeps/vmc_basic/monte_carlo_tools/suwa_todo_update.h
@@ -66,7 +66,16 @@ size_t SuwaTodoStateUpdate(size_t init_state,
 #endif
   // Swap the first weight with the maximum weight
   auto max_weight_iter = std::max_element(weights.cbegin(), weights.cend());
-  const size_t max_weight_id = max_weight_iter - weights.cbegin();
+  size_t max_weight_id = max_weight_iter - weights.cbegin();
+  // Weights that equal the maximum up to round-off are ties, broken by index. Otherwise the round-off of the
+  // caller's normalization, which differs between initial states, would decide the order of the states and
+  // degenerate weights would violate the balance condition.
+  for (size_t i = 0; i < max_weight_id; i++) {
+    if (weights[i] >= weights[max_weight_id] * (1.0 - 1e-8)) {
+      max_weight_id = i;
+      break;
+    }
+  }
 #ifndef NDEBUG
   assert(weights[max_weight_id] > 0);
 #endif
-- 
2.43.0


From e4a059ffce7a8036bdfa1ff76c90c512628f18a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:58 +0000
Subject: [PATCH 18/26] fix: Configuration::Load refuses a payload with more
 data than the lattice has sites

---
 include/qlpeps/vmc_basic/configuration.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/qlpeps/vmc_basic/configuration.h b/include/qlpeps/vmc_basic/configuration.h
index d6681b5..f9a043e 100644
--- a/include/qlpeps/vmc_basic/configuration.h
+++ b/include/qlpeps/vmc_basic/configuration.h
@@ -409,6 +409,10 @@ class Configuration : public DuoMatrix<size_t>, public Showable, public Streamab
       ifs.close();
       return false;
     }
+    std::string rest;
+    if (ifs >> rest) {
+      return false; // more data than sites: the payload of a larger lattice, or garbage
+    }
     ifs.close();
     *this = loaded;
     return true;
-- 
2.43.0


From 9c2b7a37e333a3717d3b275c56ea7fa7f8316fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:22 +0000
Subject: [PATCH 19/26] fix: L-BFGS with history_size 0 is refused on every
 rank instead of only on the master

---
 include/qlpeps/optimizer/optimizer_impl.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/qlpeps/optimizer/optimizer_impl.h b/include/qlpeps/optimizer/optimizer_impl.h
index c6f6697..1869cae 100644
--- a/include/qlpeps/optimizer/optimizer_impl.h
+++ b/include/qlpeps/optimizer/optimizer_impl.h
@@ -1500,13 +1500,14 @@ template<typename TenElemT, typename QNT>
 typename Optimizer<TenElemT, QNT>::WaveFunctionT
 Optimizer<TenElemT, QNT>::ComputeLBFGSSearchDirection_(const WaveFunctionT& gradient,
                                                        const LBFGSParams& params) {
+  // Checked on every rank: a throw on the master alone would leave the other ranks waiting.
+  if (params.history_size == 0) {
+    throw std::invalid_argument("LBFGS history_size must be > 0");
+  }
   WaveFunctionT search_direction = (-1.0) * gradient;
   if (rank_ != qlten::hp_numeric::kMPIMasterRank) {
     return search_direction;
   }
-  if (params.history_size == 0) {
-    throw std::invalid_argument("LBFGS history_size must be > 0");
-  }
 
   if (!lbfgs_history_.empty()) {
     WaveFunctionT q = gradient;
-- 
2.43.0


From ed4ddfc7cb921cdee6f6bcc096ba4b764f1ec5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:24 +0000
Subject: [PATCH 20/26] fix: the measurer's amplitude warnings are limited per
 executor instance as documented, not per process

---
 .../algorithm/vmc_update/monte_carlo_peps_measurer.h       | 2 ++
 .../algorithm/vmc_update/monte_carlo_peps_measurer_impl.h  | 7 +++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer.h b/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer.h
index 5ec2b57..d0bf5d5 100644
--- a/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer.h
+++ b/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer.h
@@ -401,6 +401,8 @@ class MCPEPSMeasurer : public qlten::Executor {
 
   // Psi sample tuple: (psi_mean, psi_rel_err)
   std::vector<std::pair<TenElemT, double>> psi_samples_;
+  // Psi consistency warnings printed so far (the budget is per executor instance)
+  size_t psi_warn_count_ = 0;
   std::vector<size_t> particle_number_samples_;
 
   std::optional<EnergyEstimate> QueryEnergyEstimate_() const;
diff --git a/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h b/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h
index 67fb2de..3270bb9 100644
--- a/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h
+++ b/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h
@@ -216,7 +216,6 @@ void MCPEPSMeasurer<TenElemT, QNT, MonteCarloSweepUpdater, MeasurementSolver, Co
   sample_data_.PushBackRegistry(engine_.WavefuncComp().amplitude, registry_map);
   // Psi summary via dedicated API (no registry involvement)
   {
-    static size_t warn_count = 0;
     auto psi_summary = measurement_solver_.template EvaluatePsiSummary<TenElemT, QNT>(
       &engine_.State(),
       &engine_.WavefuncComp());
@@ -225,14 +224,14 @@ void MCPEPSMeasurer<TenElemT, QNT, MonteCarloSweepUpdater, MeasurementSolver, Co
 
     const bool should_print_rank =
         (!p.master_only) || (engine_.Rank() == qlten::hp_numeric::kMPIMasterRank);
-    if (p.enabled && should_print_rank && psi_summary.psi_rel_err > p.threshold && warn_count < p.max_warnings) {
-      ++warn_count;
+    if (p.enabled && should_print_rank && psi_summary.psi_rel_err > p.threshold && psi_warn_count_ < p.max_warnings) {
+      ++psi_warn_count_;
       std::cerr << "[psi_consistency] rel_err=" << std::scientific << psi_summary.psi_rel_err
           << " > threshold=" << p.threshold
           << ". Consider relaxing truncation parameters."
           << " psi_mean=" << psi_summary.psi_mean
           << "\n";
-      if (warn_count == p.max_warnings) {
+      if (psi_warn_count_ == p.max_warnings) {
         std::cerr << "[psi_consistency] reached max warnings (" << p.max_warnings <<
             ") on this rank, suppressing further messages.\n";
       }
-- 
2.43.0


From 8999dc43041ed8861dce6859109b78f39cfa8894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:26 +0000
Subject: [PATCH 21/26] fix: the acceptance rate printed after an early stop is
 the average over the samples taken

---
 .../algorithm/vmc_update/monte_carlo_peps_measurer_impl.h     | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h b/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h
index 3270bb9..9431e85 100644
--- a/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h
+++ b/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h
@@ -509,6 +509,7 @@ template<typename TenElemT, typename QNT, typename MonteCarloSweepUpdater, typen
          template<typename, typename> class ContractorT>
 void MCPEPSMeasurer<TenElemT, QNT, MonteCarloSweepUpdater, MeasurementSolver, ContractorT>::Measure_(void) {
   std::vector<double> accept_rates_accum;
+  size_t samples_taken = 0;
   const size_t print_bar_length = (engine_.SamplesPerRank() / 10) > 0
                                     ? (engine_.SamplesPerRank() / 10)
                                     : 1;
@@ -531,13 +532,14 @@ void MCPEPSMeasurer<TenElemT, QNT, MonteCarloSweepUpdater, MeasurementSolver, Co
       }
     }
     MeasureSample_();
+    ++samples_taken;
     if (engine_.Rank() == qlten::hp_numeric::kMPIMasterRank && (sweep + 1) % print_bar_length == 0) {
       PrintProgressBar((sweep + 1), engine_.SamplesPerRank());
     }
   }
   std::vector<double> accept_rates_avg = accept_rates_accum;
   for (double &rates : accept_rates_avg) {
-    rates /= double(engine_.SamplesPerRank());
+    rates /= double(samples_taken); // fewer than SamplesPerRank() after an emergency stop
   }
   std::cout << "Accept rate = [";
   for (double &rate : accept_rates_avg) {
-- 
2.43.0


From d39f7c6a1d921354d4bafbf82e030bbb7e68f7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:40 +0000
Subject: [PATCH 22/26] fix: ReplicaTest divides by zero on the master when a
 rank takes fewer than ten samples

---
 .../algorithm/vmc_update/monte_carlo_peps_measurer_impl.h   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h b/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h
index 9431e85..2875ab7 100644
--- a/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h
+++ b/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h
@@ -122,6 +122,9 @@ void MCPEPSMeasurer<TenElemT, QNT, MonteCarloSweepUpdater, MeasurementSolver, Co
   overlaps.reserve(engine_.SamplesPerRank());
   //  std::cout << "Random number from worker " << rank_ << " : " << u_double_(random_engine) << std::endl;
   std::vector<double> accept_rates_accum;
+  const size_t print_bar_length = (engine_.SamplesPerRank() / 10) > 0
+                                    ? (engine_.SamplesPerRank() / 10)
+                                    : 1;
   for (size_t sweep = 0; sweep < engine_.SamplesPerRank(); sweep++) {
     std::vector<double> accept_rates = engine_.StepSweep();
     if (sweep == 0) {
@@ -147,8 +150,7 @@ void MCPEPSMeasurer<TenElemT, QNT, MonteCarloSweepUpdater, MeasurementSolver, Co
 
     // calculate overlap
     overlaps.push_back(overlap_func(engine_.WavefuncComp().config, config2));
-    if (engine_.Rank() == qlten::hp_numeric::kMPIMasterRank && (sweep + 1) % (engine_.SamplesPerRank() /
-      10) == 0) {
+    if (engine_.Rank() == qlten::hp_numeric::kMPIMasterRank && (sweep + 1) % print_bar_length == 0) {
       PrintProgressBar((sweep + 1), engine_.SamplesPerRank());
 
       auto accept_rates_avg = accept_rates_accum;
-- 
2.43.0


From 64cb859bdf3f0e5a7a2f6ca5a252e6077c6ef061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:35 +0000
Subject: [PATCH 23/26] fix: a job killed during TPS::Dump never leaves a
 mixture that TPS::Load accepts

---
 include/qlpeps/two_dim_tn/tps/tps_impl.h | 37 +++++++++++++-----------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/include/qlpeps/two_dim_tn/tps/tps_impl.h b/include/qlpeps/two_dim_tn/tps/tps_impl.h
index 8aba6e0..22c6fe3 100644
--- a/include/qlpeps/two_dim_tn/tps/tps_impl.h
+++ b/include/qlpeps/two_dim_tn/tps/tps_impl.h
@@ -102,17 +102,10 @@ bool TPS<TenElemT, QNT>::IsBondDimensionUniform(void) const {
 template<typename TenElemT, typename QNT>
 void TPS<TenElemT, QNT>::Dump(const std::string &tps_path, const bool release_mem) {
   EnsureDirectoryExists(tps_path);
-  // Write Metadata
-  {
-    std::string meta_file = tps_path + "/tps_meta.txt";
-    std::ofstream ofs(meta_file);
-    if (ofs) {
-      ofs << this->rows() << " " << this->cols() << " " << static_cast<int>(boundary_condition_) << std::endl;
-    }
-    ofs.close();
-    if (ofs.fail()) {
-      throw std::ios_base::failure("Failed to write metadata file: " + meta_file);
-    }
+  // The metadata marks a complete dump: it stays empty while the tensors of an older dump are overwritten.
+  const std::string meta_file = tps_path + "/tps_meta.txt";
+  if (!std::ofstream(meta_file)) {
+    throw std::ios_base::failure("Failed to open metadata file: " + meta_file);
   }
   std::string file;
   for (size_t row = 0; row < this->rows(); ++row) {
@@ -123,6 +116,15 @@ void TPS<TenElemT, QNT>::Dump(const std::string &tps_path, const bool release_me
       }
     }
   }
+
+  std::ofstream ofs(meta_file);
+  if (ofs) {
+    ofs << this->rows() << " " << this->cols() << " " << static_cast<int>(boundary_condition_) << std::endl;
+  }
+  ofs.close();
+  if (ofs.fail()) {
+    throw std::ios_base::failure("Failed to write metadata file: " + meta_file);
+  }
 }
 
 template<typename TenElemT, typename QNT>
@@ -133,12 +135,13 @@ bool TPS<TenElemT, QNT>::Load(const std::string &tps_path) {
     size_t r, c;
     int bc_int;
     ifs >> r >> c >> bc_int;
-    if (ifs) {
-      if (r != this->rows() || c != this->cols()) {
-         *this = TPS<TenElemT, QNT>(r, c, static_cast<BoundaryCondition>(bc_int));
-      } else {
-         boundary_condition_ = static_cast<BoundaryCondition>(bc_int);
-      }
+    if (!ifs) {
+      return false; // Incomplete dump
+    }
+    if (r != this->rows() || c != this->cols()) {
+       *this = TPS<TenElemT, QNT>(r, c, static_cast<BoundaryCondition>(bc_int));
+    } else {
+       boundary_condition_ = static_cast<BoundaryCondition>(bc_int);
     }
   }
 
-- 
2.43.0


From 6bf2954523047562c191baa87430dac2eba8b0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:35 +0000
Subject: [PATCH 24/26] fix: a job killed during SquareLatticePEPS::Dump never
 leaves a mixture that Load accepts

---
 .../peps/square_lattice_peps_basic_impl.h     | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/qlpeps/two_dim_tn/peps/square_lattice_peps_basic_impl.h b/include/qlpeps/two_dim_tn/peps/square_lattice_peps_basic_impl.h
index 538c85c..3f55b41 100644
--- a/include/qlpeps/two_dim_tn/peps/square_lattice_peps_basic_impl.h
+++ b/include/qlpeps/two_dim_tn/peps/square_lattice_peps_basic_impl.h
@@ -11,6 +11,8 @@
 #ifndef QLPEPS_TWO_DIM_TN_PEPS_SQUARE_LATTICE_PEPS_BASIC_IMPL_H
 #define QLPEPS_TWO_DIM_TN_PEPS_SQUARE_LATTICE_PEPS_BASIC_IMPL_H
 
+#include <cstdio>                  // std::remove
+#include <fstream>                 // std::ofstream
 #include "qlmps/utilities.h"       //mock_qlten::SVD
 #include "qlpeps/utility/filesystem_utils.h"
 
@@ -398,6 +400,12 @@ template<typename TenElemT, typename QNT>
 bool SquareLatticePEPS<TenElemT, QNT>::Dump(const std::string path) const {
   // Dump Gamma, lambda_vert, and lambda_horiz tensors one by one
   EnsureDirectoryExists(path);
+  // Marks a dump that has started but not completed, which may be a mixture with an older one
+  const std::string mark = path + "/incomplete";
+  if (!std::ofstream(mark)) {
+    std::cout << "Failed to create file: " << mark << std::endl;
+    return false;
+  }
   for (size_t row = 0; row < rows_; ++row) {
     for (size_t col = 0; col < cols_; ++col) {
       std::string filename = path + "/gamma_ten_" + std::to_string(row) + "-" + std::to_string(col) + ".qlten";
@@ -428,13 +436,19 @@ bool SquareLatticePEPS<TenElemT, QNT>::Dump(const std::string path) const {
     }
   }
 
-  return true; // Successfully dumped all tensors
+  return std::remove(mark.c_str()) == 0; // Successfully dumped all tensors
 }
 
 template<typename TenElemT, typename QNT>
 bool SquareLatticePEPS<TenElemT, QNT>::Dump(const std::string path, bool release_mem) {
   // Dump Gamma, lambda_vert, and lambda_horiz tensors one by one
   EnsureDirectoryExists(path);
+  // Marks a dump that has started but not completed, which may be a mixture with an older one
+  const std::string mark = path + "/incomplete";
+  if (!std::ofstream(mark)) {
+    std::cout << "Failed to create file: " << mark << std::endl;
+    return false;
+  }
   for (size_t row = 0; row < rows_; ++row) {
     for (size_t col = 0; col < cols_; ++col) {
       std::string filename = path + "/gamma_ten_" + std::to_string(row) + "-" + std::to_string(col) + ".qlten";
@@ -465,11 +479,15 @@ bool SquareLatticePEPS<TenElemT, QNT>::Dump(const std::string path, bool release
     }
   }
 
-  return true; // Successfully dumped all tensors
+  return std::remove(mark.c_str()) == 0; // Successfully dumped all tensors
 }
 
 template<typename TenElemT, typename QNT>
 bool SquareLatticePEPS<TenElemT, QNT>::Load(const std::string path) {
+  if (IsPathExist(path + "/incomplete")) {
+    std::cout << "The dump in " << path << " was not completed." << std::endl;
+    return false;
+  }
   // Load Gamma, lambda_vert, and lambda_horiz tensors one by one
   for (size_t row = 0; row < rows_; ++row) {
     for (size_t col = 0; col < cols_; ++col) {
-- 
2.43.0


From c06adcbc004ee8c025f6161d0dd748f52794e9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:43 +0000
Subject: [PATCH 25/26] fix: the next-nearest-neighbour simple update takes the
 on-site share of a lower-left triangle from its own site

---
 .../algorithm/simple_update/square_lattice_nnn_simple_update.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/qlpeps/algorithm/simple_update/square_lattice_nnn_simple_update.h b/include/qlpeps/algorithm/simple_update/square_lattice_nnn_simple_update.h
index 39278ec..1c43194 100644
--- a/include/qlpeps/algorithm/simple_update/square_lattice_nnn_simple_update.h
+++ b/include/qlpeps/algorithm/simple_update/square_lattice_nnn_simple_update.h
@@ -150,8 +150,7 @@ class SquareLatticeNNNSimpleUpdateExecutor : public SimpleUpdateExecutor<TenElem
       }
       case LowerLeft: {
         tri_site[0] = {(site_b[0] - 1 + this->peps_.lambda_vert.rows()) % this->peps_.lambda_vert.rows(), site_b[1]};
-        tri_site[2] = {(site_b[0] - 1 + this->peps_.lambda_vert.rows()) % this->peps_.lambda_vert.rows(), 
-                       (site_b[1] + 1) % this->peps_.lambda_horiz.cols()};
+        tri_site[2] = {site_b[0], (site_b[1] + 1) % this->peps_.lambda_horiz.cols()};
         break;
       }
       case LowerRight: {
-- 
2.43.0


From 45a098e466dac0eb812e34732f0ea0bad8aadc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:58 +0000
Subject: [PATCH 26/26] fix: the triangular Heisenberg model declares
 SpSm_cross as a flat list

A zero-sized dimension made MCPEPSMeasurer::DumpData throw whenever the
structure factor was measured.
---
 .../model_solvers/spin_onehalf_triangle_heisenberg_sqrpeps.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenberg_sqrpeps.h b/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenberg_sqrpeps.h
index 7f2fa8a..b084a81 100644
--- a/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenberg_sqrpeps.h
+++ b/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenberg_sqrpeps.h
@@ -174,7 +174,7 @@ class SpinOneHalfTriHeisenbergSqrPEPS :
     desc.push_back({"SpSm_row", "Row Sp(i)Sm(j) along middle row (flat)", {row_corr_len}, {"segment"}});
     desc.push_back({"SzSz_all2all", "All-to-all SzSz correlations (upper-tri packed)", {site_num * (site_num + 1) / 2},
                     {"pair_packed_upper_tri"}});
-    desc.push_back({"SpSm_cross", "All-to-all SpSm structure factor correlations (sparse format)", {0}, {"y1", "x1", "y2", "x2", "val"}});
+    desc.push_back({"SpSm_cross", "All-to-all SpSm structure factor correlations (sparse format)", {}, {"y1", "x1", "y2", "x2", "val"}});
     return desc;
   }
 
-- 
2.43.0

