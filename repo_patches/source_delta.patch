From 49e14c591de90af8f3ad076bca167139d88baa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:05 +0000
Subject: [PATCH 01/14] fix: start TL splitting from zero in the MoC sweeper

With tl_splitting enabled the splitting cross section was allocated but not
set until a transverse leakage source was applied. A plain MoC run never
applies one, so it swept with whatever the heap contained.
---
 src/sweepers/moc/moc_sweeper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sweepers/moc/moc_sweeper.cpp b/src/sweepers/moc/moc_sweeper.cpp
index 45c9b2c..6cd2c03 100644
--- a/src/sweepers/moc/moc_sweeper.cpp
+++ b/src/sweepers/moc/moc_sweeper.cpp
@@ -119,6 +119,8 @@ MoCSweeper::MoCSweeper(const pugi::xml_node &input, const CoreMesh &mesh)
     allow_splitting_ = input.attribute("tl_splitting").as_bool(false);
     if (allow_splitting_) {
         split_.resize(n_reg_);
+        // No splitting until a transverse leakage source is applied
+        split_ = 0.0;
     }
 
     // Sanity-check the subplane parameters. We will operate on the assumption
-- 
2.43.0


From 5416b6704aed9b81fcd043491a233596b38ff02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:45 +0000
Subject: [PATCH 02/14] fix: index the external source by group first, as it is
 stored

The external source is read as (group, region) and its extents are checked
that way, but it was accessed as (region, group).  Fixed-source problems with
more regions than groups used wrong values and read past the array.
---
 src/core/source.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/source.cpp b/src/core/source.cpp
index 7900804..d0f577b 100644
--- a/src/core/source.cpp
+++ b/src/core/source.cpp
@@ -42,7 +42,7 @@ void Source::initialize_group(int ig)
 {
     if (has_external_) {
         for (int ireg = 0; ireg < (int)n_reg_; ireg++) {
-            source_1g_[ireg] = external_source_(ireg, ig);
+            source_1g_[ireg] = external_source_(ig, ireg);
         }
     }
     else {
-- 
2.43.0


From 8ca8699aa4172dd4a71ad32d9e6f1ab7cfa256e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:00 +0000
Subject: [PATCH 03/14] fix: fail a fixed-source solve whose residual is not
 finite

A residual that is not a number compares false with the tolerance both ways,
so the solve ran to the iteration limit and reported success.
---
 src/solvers/fixed_source_solver.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/solvers/fixed_source_solver.cpp b/src/solvers/fixed_source_solver.cpp
index cd47f95..be4a268 100644
--- a/src/solvers/fixed_source_solver.cpp
+++ b/src/solvers/fixed_source_solver.cpp
@@ -16,6 +16,7 @@
 
 #include "fixed_source_solver.hpp"
 
+#include <cmath>
 #include <iostream>
 #include "pugixml.hpp"
 #include "util/error.hpp"
@@ -86,6 +87,10 @@ void FixedSourceSolver::solve()
         resid = sweeper_->flux_residual();
         LogScreen << iouter << " " << std::setprecision(15) << resid << std::endl;
 
+        if (!std::isfinite(resid)) {
+            throw EXCEPT("Flux residual is not finite. Giving up.");
+        }
+
         if (resid < flux_tol_) {
             break;
         }
-- 
2.43.0


From e1dbfce48fb0e6a984d8922b42cf13d6a7fbc571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:42 +0000
Subject: [PATCH 04/14] fix: fail an eigenvalue solve whose fission source is
 not finite

Only the eigenvalue was tested, and only for not-a-number.  A solve whose
fission source had become not-a-number could still report success.
---
 src/solvers/eigen_solver.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/solvers/eigen_solver.cpp b/src/solvers/eigen_solver.cpp
index 89e9f1c..b033a7c 100644
--- a/src/solvers/eigen_solver.cpp
+++ b/src/solvers/eigen_solver.cpp
@@ -16,6 +16,7 @@
 
 #include "eigen_solver.hpp"
 
+#include <cmath>
 #include <iomanip>
 #include "pugixml.hpp"
 #include "util/error.hpp"
@@ -203,9 +204,12 @@ void EigenSolver::solve()
         }
 
         // Check for NaN
-        if (keff_ != keff_) {
+        if (!std::isfinite(keff_)) {
             throw EXCEPT("Eigenvalue is not a number. Giving up.");
         }
+        if (!std::isfinite(error_psi_)) {
+            throw EXCEPT("Fission source is not a number. Giving up.");
+        }
 
         LogFile << (error_k_ < tolerance_k_) << " "
                 << (error_psi_ < tolerance_psi_) << " "
-- 
2.43.0


From fc66683df575893dc1830ff2b68ece4bd2b48907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:10 +0000
Subject: [PATCH 05/14] fix: report failures to flush or close the result file

Errors that showed up only when a dataset or the file was closed were
swallowed by destructors, so a run on a full or failing disk announced its
output and ended successfully with an incomplete file.  Close datasets and
files explicitly, and announce the output only afterwards.
---
 src/driver.cpp               |  2 ++
 src/solvers/eigen_solver.cpp |  1 +
 src/util/h5file.cpp          | 18 ++++++++++++++++++
 src/util/h5file.hpp          | 13 +++++++++++++
 4 files changed, 34 insertions(+)

diff --git a/src/driver.cpp b/src/driver.cpp
index da739a7..e4a6bc2 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -82,6 +82,8 @@ void generate_output()
         }
     }
 
+    outfile.close();
+
     std::cout << "Output written to '" << input_proc->case_name() << "'"
               << std::endl;
 }
diff --git a/src/solvers/eigen_solver.cpp b/src/solvers/eigen_solver.cpp
index b033a7c..1a66ea4 100644
--- a/src/solvers/eigen_solver.cpp
+++ b/src/solvers/eigen_solver.cpp
@@ -196,6 +196,7 @@ void EigenSolver::solve()
             fname << global::case_name << "_iter_" << n_iterations + 1 << ".h5";
             H5Node h5f(fname.str(), H5Access::WRITE);
             this->output(h5f);
+            h5f.close();
 
             next_dump = std::numeric_limits<int>::max();
             if (++dump_it != dump_iterations_.end()) {
diff --git a/src/util/h5file.cpp b/src/util/h5file.cpp
index b5e85ee..e0e058a 100644
--- a/src/util/h5file.cpp
+++ b/src/util/h5file.cpp
@@ -48,6 +48,20 @@ H5Node::H5Node(std::shared_ptr<H5::CommonFG> node, H5Access access)
     return;
 }
 
+void H5Node::close()
+{
+    if (!file_) {
+        throw EXCEPT("Only nodes that refer to a whole file can be closed");
+    }
+    try {
+        file_->flush(H5F_SCOPE_GLOBAL);
+        file_->close();
+    } catch (...) {
+        throw EXCEPT("Failed to write HDF5 file to disk");
+    }
+    return;
+}
+
 H5Node H5Node::create_group(std::string path)
 {
     if (access_ != H5Access::READ) {
@@ -112,6 +126,7 @@ void H5Node::write(std::string path, const VecF &data)
         H5::DataSet dataset =
             node_->createDataSet(path, H5::PredType::NATIVE_DOUBLE, space);
         dataset.write(data.data(), H5::PredType::NATIVE_DOUBLE);
+        dataset.close();
     } catch (...) {
         std::stringstream msg;
         msg << "Failed to write dataset: " << path;
@@ -138,6 +153,7 @@ void H5Node::write(std::string path, const VecF &data, VecI dims)
         H5::DataSet dataset =
             node_->createDataSet(path, H5::PredType::NATIVE_DOUBLE, space);
         dataset.write(data.data(), H5::PredType::NATIVE_DOUBLE);
+        dataset.close();
     } catch (...) {
         std::stringstream msg;
         msg << "Failed to write dataset: " << path;
@@ -165,6 +181,7 @@ void H5Node::write(std::string path, const ArrayB1 &data, VecI dims)
         H5::DataSet dataset =
             node_->createDataSet(path, H5::PredType::NATIVE_DOUBLE, space);
         dataset.write(data.data(), H5::PredType::NATIVE_DOUBLE);
+        dataset.close();
     } catch (...) {
         std::stringstream msg;
         msg << "Failed to write dataset: " << path;
@@ -259,6 +276,7 @@ void H5Node::write(std::string path, const std::string &str)
         H5::DataSet dataset = node_->createDataSet(path, vlst, space);
         H5std_string str_data(str);
         dataset.write(str_data, vlst);
+        dataset.close();
     } catch (...) {
         std::stringstream msg;
         msg << "Failed to write string data: " << path;
diff --git a/src/util/h5file.hpp b/src/util/h5file.hpp
index 77694f8..24c6d6b 100644
--- a/src/util/h5file.hpp
+++ b/src/util/h5file.hpp
@@ -70,6 +70,15 @@ public:
 
     H5Node(const char *filename, H5Access access);
 
+    /**
+     * \brief Write all pending data and close the file.
+     *
+     * Errors that surface only while data is flushed or the file is closed
+     * are lost if closing is left to the destructor. This throws instead. The
+     * node cannot be used afterwards.
+     */
+    void close();
+
     /**
      * \brief Create a new group in the HDF5 file.
      *
@@ -182,6 +191,7 @@ public:
             H5::DataSet dataset =
                 node_->createDataSet(path, H5::PredType::NATIVE_DOUBLE, space);
             dataset.write(data.data(), H5::PredType::NATIVE_DOUBLE);
+            dataset.close();
         } catch (...) {
             std::stringstream msg;
             msg << "Failed to write dataset: " << path;
@@ -205,6 +215,7 @@ public:
             H5::DataSet dataset =
                 node_->createDataSet(path, H5::PredType::NATIVE_INT, space);
             dataset.write(&data, H5::PredType::NATIVE_INT);
+            dataset.close();
         } catch (...) {
             std::stringstream msg;
             msg << "Failed to write dataset: " << path;
@@ -227,6 +238,7 @@ public:
             H5::DataSet dataset =
                 node_->createDataSet(path, H5::PredType::NATIVE_ULONG, space);
             dataset.write(&data, H5::PredType::NATIVE_ULONG);
+            dataset.close();
         } catch (...) {
             std::stringstream msg;
             msg << "Failed to write dataset: " << path;
@@ -393,6 +405,7 @@ public:
             H5::DataSet dataset =
                 node_->createDataSet(path, H5::PredType::NATIVE_DOUBLE, space);
             dataset.write(d.data(), H5::PredType::NATIVE_DOUBLE);
+            dataset.close();
         } catch (...) {
             std::stringstream msg;
             msg << "Failed to write dataset: " << path;
-- 
2.43.0


From df35e48c802452178f435c7ab40feaf62bb52a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:42 +0000
Subject: [PATCH 06/14] fix: report failures to write the ray and geometry
 drawings

Both files were written without looking at the stream afterwards.
---
 src/auxiliary/geometry_output.cpp | 5 +++++
 src/sweepers/moc/moc_sweeper.cpp  | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/auxiliary/geometry_output.cpp b/src/auxiliary/geometry_output.cpp
index cbc1e70..28fa36d 100644
--- a/src/auxiliary/geometry_output.cpp
+++ b/src/auxiliary/geometry_output.cpp
@@ -116,6 +116,11 @@ void output_geometry(const pugi::xml_node &input, const CoreMesh &mesh)
     out << "surface.finish()" << std::endl;
     out << "" << std::endl;
 
+    out.close();
+    if (!out) {
+        throw EXCEPT("Failed to write geometry output to " + file);
+    }
+
     return;
 }
 }
diff --git a/src/sweepers/moc/moc_sweeper.cpp b/src/sweepers/moc/moc_sweeper.cpp
index 6cd2c03..8f6ae4c 100644
--- a/src/sweepers/moc/moc_sweeper.cpp
+++ b/src/sweepers/moc/moc_sweeper.cpp
@@ -177,6 +177,10 @@ MoCSweeper::MoCSweeper(const pugi::xml_node &input, const CoreMesh &mesh)
     if (dump_rays_) {
         std::ofstream rayfile("rays.py");
         rayfile << rays_ << std::endl;
+        rayfile.close();
+        if (!rayfile) {
+            throw EXCEPT("Failed to write rays.py");
+        }
     }
 
     // Replace the angular quadrature with the modularized version
-- 
2.43.0


From 53fee3572f8198d5a1baef5b63a36148eec5eb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:04:01 +0000
Subject: [PATCH 07/14] fix: report a failed read of a library file instead of
 looping

FileScrubber::getline only stopped at the end of the file.
A read error sets the bad bit and never reaches the end, so the loop
never finished.
---
 src/util/file_scrubber.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/file_scrubber.cpp b/src/util/file_scrubber.cpp
index ede23c3..b895be5 100644
--- a/src/util/file_scrubber.cpp
+++ b/src/util/file_scrubber.cpp
@@ -38,6 +38,9 @@ std::string FileScrubber::getline()
     while (!stream_.eof()) {
         std::string line;
         std::getline(stream_, line);
+        if (stream_.bad()) {
+            throw EXCEPT("Failed to read file");
+        }
         // Strip the comments
         size_t commentPos = line.find(flag_, 0);
         if (commentPos != std::string::npos) {
-- 
2.43.0


From b69abbb6d84888965697e76eb66f6ba304456310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:33:10 +0000
Subject: [PATCH 08/14] fix: report a pin mesh drawing cut short by a failed
 allocation

Streams swallow the exception of a failed allocation and only set their
bad bit.  The geometry file then silently lacked part of the drawing.
---
 src/core/pin_mesh_cyl.cpp  | 3 +++
 src/core/pin_mesh_rect.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/core/pin_mesh_cyl.cpp b/src/core/pin_mesh_cyl.cpp
index 04a2598..93004d3 100644
--- a/src/core/pin_mesh_cyl.cpp
+++ b/src/core/pin_mesh_cyl.cpp
@@ -379,6 +379,9 @@ std::string PinMesh_Cyl::draw() const
         buf << "ctx.close_path()" << std::endl;
     }
     buf << "ctx.stroke()";
+    if (!buf) {
+        throw EXCEPT("Failed to produce pin mesh drawing");
+    }
     return buf.str();
 }
 }
diff --git a/src/core/pin_mesh_rect.cpp b/src/core/pin_mesh_rect.cpp
index 8842e9e..c031e80 100644
--- a/src/core/pin_mesh_rect.cpp
+++ b/src/core/pin_mesh_rect.cpp
@@ -219,6 +219,9 @@ std::string PinMesh_Rect::draw() const
     }
     buf << "ctx.stroke()";
 
+    if (!buf) {
+        throw EXCEPT("Failed to produce pin mesh drawing");
+    }
     return buf.str();
 }
 }
-- 
2.43.0


From 8b698e0019200a4c425c2a0c9be662d8bd06cf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:44:36 +0000
Subject: [PATCH 09/14] fix: stop at the end of the iteration when interrupted

The SIGINT handler wrote the output itself, from wherever the signal
arrived.  Before the solver existed it dereferenced a null pointer, after
truncating the result file of an earlier run.  During a solve it read
histories that were being extended, and it re-entered the HDF5 library
when a file was being written.  It now sets a flag that the solvers look
at after each iteration or cycle.  Before the solve it just quits.
---
 src/core/globals.cpp                          |  1 +
 src/core/globals.hpp                          |  4 ++++
 src/driver.cpp                                | 22 +++++++++++++++----
 src/solvers/eigen_solver.cpp                  |  4 ++++
 src/solvers/fixed_source_solver.cpp           |  5 +++--
 src/solvers/monte_carlo_eigenvalue_solver.cpp |  7 ++++++
 6 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/core/globals.cpp b/src/core/globals.cpp
index 9c98aab..966df44 100644
--- a/src/core/globals.cpp
+++ b/src/core/globals.cpp
@@ -19,5 +19,6 @@
 namespace mocc {
 namespace global {
 std::string case_name;
+volatile std::sig_atomic_t interrupted = 0;
 }
 }
diff --git a/src/core/globals.hpp b/src/core/globals.hpp
index 56a770e..d985a5f 100644
--- a/src/core/globals.hpp
+++ b/src/core/globals.hpp
@@ -15,10 +15,14 @@
 */
 
 #pragma once
+#include <csignal>
 #include <string>
 
 namespace mocc {
 namespace global {
 extern std::string case_name;
+// Nonzero once the user asked to stop (SIGINT). Solvers stop after the iteration
+// or cycle in progress.
+extern volatile std::sig_atomic_t interrupted;
 }
 }
diff --git a/src/driver.cpp b/src/driver.cpp
index e4a6bc2..0f847d1 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -31,6 +31,7 @@
 #include "util/omp_guard.h"
 #include "util/timers.hpp"
 #include "core/core_mesh.hpp"
+#include "core/globals.hpp"
 #include "core/solver.hpp"
 #include "core/transport_sweeper.hpp"
 #include "git_SHA1.hpp"
@@ -91,12 +92,17 @@ void generate_output()
 // Print the MOCC banner. Pretty!
 void print_banner();
 
-// Signal handler for SIGINT. Calls output() and quits
+// Nonzero from the start of the solve on
+static volatile std::sig_atomic_t solving = 0;
+
+// Signal handler for SIGINT. While solving, ask the solver to stop after the
+// current iteration. Before that there is nothing to save, so just quit.
 void int_handler(int p)
 {
-    std::cout << "Caught SIGINT. Bailing." << std::endl;
-    generate_output();
-    std::exit(EXIT_FAILURE);
+    if (!solving) {
+        std::_Exit(EXIT_FAILURE);
+    }
+    global::interrupted = 1;
 }
 
 /**
@@ -161,7 +167,11 @@ int run(const std::vector<std::string> &args)
 
         // Pull a shared pointer to the top-level solver and make it go
         solver = input_proc->solver();
+        solving = 1;
         solver->solve();
+        if (global::interrupted) {
+            LogScreen << "Caught SIGINT. Bailing." << std::endl;
+        }
 
         // Output stuff
         generate_output();
@@ -171,6 +181,10 @@ int run(const std::vector<std::string> &args)
         RootTimer.print(LogFile);
 
         StopLogFile();
+
+        if (global::interrupted) {
+            return EXIT_FAILURE;
+        }
     }
 
     catch (Exception e) {
diff --git a/src/solvers/eigen_solver.cpp b/src/solvers/eigen_solver.cpp
index 1a66ea4..357c331 100644
--- a/src/solvers/eigen_solver.cpp
+++ b/src/solvers/eigen_solver.cpp
@@ -221,6 +221,10 @@ void EigenSolver::solve()
             break;
         }
 
+        if (global::interrupted) {
+            break;
+        }
+
         if (n_iterations == (max_iterations_ - 1)) {
             LogScreen << "Maximum number of iterations reached!" << std::endl;
         }
diff --git a/src/solvers/fixed_source_solver.cpp b/src/solvers/fixed_source_solver.cpp
index be4a268..0fa1a5b 100644
--- a/src/solvers/fixed_source_solver.cpp
+++ b/src/solvers/fixed_source_solver.cpp
@@ -22,6 +22,7 @@
 #include "util/error.hpp"
 #include "util/files.hpp"
 #include "util/h5file.hpp"
+#include "core/globals.hpp"
 #include "transport_sweeper_factory.hpp"
 
 namespace mocc {
@@ -91,12 +92,12 @@ void FixedSourceSolver::solve()
             throw EXCEPT("Flux residual is not finite. Giving up.");
         }
 
-        if (resid < flux_tol_) {
+        if (resid < flux_tol_ || global::interrupted) {
             break;
         }
     }
     
-    if (resid >= flux_tol_ ) {
+    if (resid >= flux_tol_ && !global::interrupted) {
         LogScreen << "Maximum number (" << max_iter_ << ") of iterations "
             "performed before convergence!" << std::endl;
     }
diff --git a/src/solvers/monte_carlo_eigenvalue_solver.cpp b/src/solvers/monte_carlo_eigenvalue_solver.cpp
index 5978147..2d39af9 100644
--- a/src/solvers/monte_carlo_eigenvalue_solver.cpp
+++ b/src/solvers/monte_carlo_eigenvalue_solver.cpp
@@ -21,6 +21,7 @@
 #include "util/error.hpp"
 #include "util/files.hpp"
 #include "util/utils.hpp"
+#include "core/globals.hpp"
 #include "mc/fission_bank.hpp"
 
 namespace {
@@ -106,6 +107,9 @@ void MonteCarloEigenvalueSolver::solve()
     active_cycle_ = false;
     for (int i = 0; i < n_inactive_cycles_; i++) {
         this->step();
+        if (global::interrupted) {
+            return;
+        }
     }
 
     // Reset the tallies following inactive cycles, here we want to reset ALL
@@ -118,6 +122,9 @@ void MonteCarloEigenvalueSolver::solve()
     int n_active = n_cycles_ - n_inactive_cycles_ + 1;
     for (int i = 0; i < n_active; i++) {
         this->step();
+        if (global::interrupted) {
+            return;
+        }
     }
 
     return;
-- 
2.43.0


From 20a11d02cd8f33816d97a6f033985e9dbf3dcd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:49:01 +0000
Subject: [PATCH 10/14] fix: dump every requested iteration whatever else is on
 the list

An iteration listed twice, or a number below one, was never reached and
blocked all the dumps after it.
---
 src/solvers/eigen_solver.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/solvers/eigen_solver.cpp b/src/solvers/eigen_solver.cpp
index 357c331..85a455f 100644
--- a/src/solvers/eigen_solver.cpp
+++ b/src/solvers/eigen_solver.cpp
@@ -16,6 +16,7 @@
 
 #include "eigen_solver.hpp"
 
+#include <algorithm>
 #include <cmath>
 #include <iomanip>
 #include "pugixml.hpp"
@@ -158,12 +159,6 @@ void EigenSolver::solve()
               << std::setw(out_w) << "k" << std::setw(out_w) << "k error"
               << std::setw(out_w) << "psi error" << std::endl;
 
-    auto dump_it       = dump_iterations_.begin();
-    unsigned next_dump = std::numeric_limits<unsigned>::max();
-    if (dump_it != dump_iterations_.end()) {
-        next_dump = *dump_it;
-    }
-
     for (size_t n_iterations = 0; n_iterations < max_iterations_;
          n_iterations++) {
         this->step();
@@ -191,17 +186,13 @@ void EigenSolver::solve()
 
         this->print(n_iterations + 1, convergence_.back());
 
-        if (n_iterations + 1 == next_dump) {
+        if (std::binary_search(dump_iterations_.begin(), dump_iterations_.end(),
+                               (int)n_iterations + 1)) {
             std::stringstream fname;
             fname << global::case_name << "_iter_" << n_iterations + 1 << ".h5";
             H5Node h5f(fname.str(), H5Access::WRITE);
             this->output(h5f);
             h5f.close();
-
-            next_dump = std::numeric_limits<int>::max();
-            if (++dump_it != dump_iterations_.end()) {
-                next_dump = *dump_it;
-            }
         }
 
         // Check for NaN
-- 
2.43.0


From 6b746d495c8157070f02f725852bfe3e8b91a419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:54 +0000
Subject: [PATCH 11/14] fix: keep the screen alive when the log file cannot be
 written

A log file that could not be opened or written put the stream that feeds
both into a failed state.  Nothing was shown on the screen any more, and
nothing told why.  Each stream now carries on by itself, and trouble with
the log file is reported.
---
 src/util/files.cpp      | 11 +++++++++++
 src/util/tee_stream.hpp | 24 ++++++++++++++++++++++--
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/util/files.cpp b/src/util/files.cpp
index a95673d..46fd4cd 100644
--- a/src/util/files.cpp
+++ b/src/util/files.cpp
@@ -36,6 +36,11 @@ void StartLogFile(std::string arg)
 
     std::cout << "Logging output to: " << logname << std::endl << std::endl;
     LogFile.open(logname, std::fstream::out);
+    if (!LogFile) {
+        std::cerr << "WARNING: Failed to open log file: " << logname
+                  << std::endl;
+        return;
+    }
 
     LogScreen.reset(std::cout, LogFile);
 
@@ -44,5 +49,11 @@ void StartLogFile(std::string arg)
 
 void StopLogFile()
 {
+    if (!LogFile.is_open()) {
+        return;
+    }
     LogFile.close();
+    if (!LogFile || LogScreen.second_failed()) {
+        std::cerr << "WARNING: Failed to write the whole log file" << std::endl;
+    }
 }
diff --git a/src/util/tee_stream.hpp b/src/util/tee_stream.hpp
index 3ab41d0..2deda03 100644
--- a/src/util/tee_stream.hpp
+++ b/src/util/tee_stream.hpp
@@ -43,12 +43,21 @@ public:
         return;
     }
 
+    /**
+     * \brief Return whether something could not be written to the second stream
+     */
+    bool second_failed() const
+    {
+        return failed2_;
+    }
+
 private:
     virtual int sync()
     {
         int const r1 = sb1_->pubsync();
         int const r2 = sb2_->pubsync();
-        return r1 == 0 && r2 == 0 ? 0 : -1;
+        failed2_     = failed2_ || r2 != 0;
+        return r1 == 0 || r2 == 0 ? 0 : -1;
     }
 
     virtual int_type overflow(int_type c)
@@ -62,8 +71,10 @@ private:
             char_type const ch = traits::to_char_type(c);
             int_type const r1  = sb1_->sputc(ch);
             int_type const r2  = sb2_->sputc(ch);
+            failed2_           = failed2_ || traits::eq_int_type(r2, eof);
 
-            return traits::eq_int_type(r1, eof) || traits::eq_int_type(r2, eof)
+            // One stream in trouble shall not silence the other
+            return traits::eq_int_type(r1, eof) && traits::eq_int_type(r2, eof)
                        ? eof
                        : c;
         }
@@ -72,6 +83,7 @@ private:
 private:
     std::basic_streambuf<char_type, traits> *sb1_;
     std::basic_streambuf<char_type, traits> *sb2_;
+    bool failed2_ = false;
 };
 
 typedef basic_teebuf<char> teebuf;
@@ -131,6 +143,14 @@ public:
         return;
     }
 
+    /**
+     * \brief Return whether something could not be written to the second stream
+     */
+    bool second_failed() const
+    {
+        return tbuf.second_failed();
+    }
+
 private:
     teebuf tbuf;
 };
-- 
2.43.0


From 15ef42542a5e5482e1f270734dca34046fd2dc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:00:57 +0000
Subject: [PATCH 12/14] fix: stop the timer of a part before the timer of the
 whole

The whole was stopped first, so a pause in between made a part appear to
take longer than the whole it belongs to.
---
 src/core/cmfd.cpp                      | 2 +-
 src/sweepers/cmdo/moc_sweeper_2d3d.cpp | 2 +-
 src/sweepers/moc/moc_sweeper.cpp       | 2 +-
 src/sweepers/sn/sn_sweeper.cpp         | 2 +-
 src/sweepers/sn/sn_sweeper_variant.hpp | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/cmfd.cpp b/src/core/cmfd.cpp
index ab2c243..f08edd3 100644
--- a/src/core/cmfd.cpp
+++ b/src/core/cmfd.cpp
@@ -163,8 +163,8 @@ CMFD::CMFD(const pugi::xml_node &input, const CoreMesh *mesh,
         }
     }
 
-    timer_.toc();
     timer_init_.toc();
+    timer_.toc();
     return;
 }
 
diff --git a/src/sweepers/cmdo/moc_sweeper_2d3d.cpp b/src/sweepers/cmdo/moc_sweeper_2d3d.cpp
index 98c2a21..cb1b3ac 100644
--- a/src/sweepers/cmdo/moc_sweeper_2d3d.cpp
+++ b/src/sweepers/cmdo/moc_sweeper_2d3d.cpp
@@ -93,8 +93,8 @@ void MoCSweeper_2D3D::sweep(int group)
         }
     }
 
-    timer_.toc();
     timer_sweep_.toc();
+    timer_.toc();
     return;
 }
 
diff --git a/src/sweepers/moc/moc_sweeper.cpp b/src/sweepers/moc/moc_sweeper.cpp
index 8f6ae4c..262ed3d 100644
--- a/src/sweepers/moc/moc_sweeper.cpp
+++ b/src/sweepers/moc/moc_sweeper.cpp
@@ -225,8 +225,8 @@ void MoCSweeper::sweep(int group)
         }
     }
 
-    timer_.toc();
     timer_sweep_.toc();
+    timer_.toc();
     return;
 } // sweep( group )
 
diff --git a/src/sweepers/sn/sn_sweeper.cpp b/src/sweepers/sn/sn_sweeper.cpp
index 0c75a8e..8389821 100644
--- a/src/sweepers/sn/sn_sweeper.cpp
+++ b/src/sweepers/sn/sn_sweeper.cpp
@@ -118,8 +118,8 @@ SnSweeper::SnSweeper(const pugi::xml_node &input, const CoreMesh &mesh)
              "in parallel Sn");
     }
 
-    timer_.toc();
     timer_init_.toc();
+    timer_.toc();
 
     return;
 } // SnSweeper::SnSweeper( input, mesh )
diff --git a/src/sweepers/sn/sn_sweeper_variant.hpp b/src/sweepers/sn/sn_sweeper_variant.hpp
index 0966f6e..5c5351a 100644
--- a/src/sweepers/sn/sn_sweeper_variant.hpp
+++ b/src/sweepers/sn/sn_sweeper_variant.hpp
@@ -148,8 +148,8 @@ public:
             LogFile << "Fixed " << n_neg << "negative Sn fluxes\n";
         }
 
-        timer_.toc();
         timer_sweep_.toc();
+        timer_.toc();
         return;
     }
 
-- 
2.43.0


From 217e1cc217a55cdd72bb6d6e299224dd91f3c26f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Sun, 15 Nov 2026 04:13:07 +0000
Subject: [PATCH 13/14] fix: draw the pin boundaries over the full height of
 the mesh

---
 src/core/core_mesh.cpp | 2 +-
 src/core/mesh.cpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/core_mesh.cpp b/src/core/core_mesh.cpp
index 62d65b6..b96a5e0 100644
--- a/src/core/core_mesh.cpp
+++ b/src/core/core_mesh.cpp
@@ -122,7 +122,7 @@ CoreMesh::CoreMesh(const pugi::xml_node &input)
 
     // Form lines for internal pin boundaries and domain bounding box
     for (auto xi = x_vec_.cbegin() + 1; xi != x_vec_.cend() - 1; ++xi) {
-        lines_.push_back(Line(Point2(*xi, 0.0), Point2(*xi, hx_)));
+        lines_.push_back(Line(Point2(*xi, 0.0), Point2(*xi, hy_)));
     }
     for (auto yi = y_vec_.cbegin() + 1; yi != y_vec_.cend() - 1; ++yi) {
         lines_.push_back(Line(Point2(0.0, *yi), Point2(hx_, *yi)));
diff --git a/src/core/mesh.cpp b/src/core/mesh.cpp
index 0dcfb42..2f19c6d 100644
--- a/src/core/mesh.cpp
+++ b/src/core/mesh.cpp
@@ -45,7 +45,7 @@ Mesh::Mesh(size_t n_reg, size_t n_xsreg, const VecF &hx, const VecF &hy,
 
     hx_ = x_vec_.back();
     for (auto xi = x_vec_.cbegin() + 1; xi != x_vec_.cend() - 1; ++xi) {
-        lines_.push_back(Line(Point2(*xi, 0.0), Point2(*xi, hx_)));
+        lines_.push_back(Line(Point2(*xi, 0.0), Point2(*xi, y_vec_.back())));
     }
     hy_ = y_vec_.back();
     for (auto yi = y_vec_.cbegin() + 1; yi != y_vec_.cend() - 1; ++yi) {
-- 
2.43.0


From b1d9250516903ec55d3b90ccb6170c74f65459c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:45:52 +0000
Subject: [PATCH 14/14] fix: do not write to a log buffer that could not be
 emptied

Once the log file cannot be written and its buffer is full, every further
character ran past the end of the buffer. The tee stream now drops log
output until the buffer has been emptied again.
---
 src/util/tee_stream.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/util/tee_stream.hpp b/src/util/tee_stream.hpp
index 2deda03..cbcde71 100644
--- a/src/util/tee_stream.hpp
+++ b/src/util/tee_stream.hpp
@@ -38,8 +38,9 @@ public:
     void reset(std::basic_streambuf<char_type, traits> *sb1,
                std::basic_streambuf<char_type, traits> *sb2)
     {
-        sb1_ = sb1;
-        sb2_ = sb2;
+        sb1_   = sb1;
+        sb2_   = sb2;
+        full2_ = false;
         return;
     }
 
@@ -57,6 +58,7 @@ private:
         int const r1 = sb1_->pubsync();
         int const r2 = sb2_->pubsync();
         failed2_     = failed2_ || r2 != 0;
+        full2_       = full2_ && r2 != 0;
         return r1 == 0 || r2 == 0 ? 0 : -1;
     }
 
@@ -70,8 +72,10 @@ private:
         else {
             char_type const ch = traits::to_char_type(c);
             int_type const r1  = sb1_->sputc(ch);
-            int_type const r2  = sb2_->sputc(ch);
-            failed2_           = failed2_ || traits::eq_int_type(r2, eof);
+            // A file buffer that could not be emptied has no room for more
+            int_type const r2 = full2_ ? eof : sb2_->sputc(ch);
+            full2_            = traits::eq_int_type(r2, eof);
+            failed2_          = failed2_ || full2_;
 
             // One stream in trouble shall not silence the other
             return traits::eq_int_type(r1, eof) && traits::eq_int_type(r2, eof)
@@ -84,6 +88,7 @@ private:
     std::basic_streambuf<char_type, traits> *sb1_;
     std::basic_streambuf<char_type, traits> *sb2_;
     bool failed2_ = false;
+    bool full2_   = false;
 };
 
 typedef basic_teebuf<char> teebuf;
-- 
2.43.0

