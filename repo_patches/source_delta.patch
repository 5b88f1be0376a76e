From ce68cbca3266f316571f10ee62c8fce221ae523e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:28 +0000
Subject: [PATCH 01/26] fix: keep the latitude hit map accesses inside the map

A sample exactly on the equator was counted one element past the end of
the hit map, and the search for the rank boundaries ran past the end when
there were more ranks than occupied latitudes.
---
 src/conviqt_math.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index 4d3c729..7ae63f4 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -290,7 +290,8 @@ void convolver::distribute_colatitudes(levels::arr<double> &pntarr,
         if (beta > halfpi) {
             beta = pi - beta;
         }
-        long ibin = beta / wbin;
+        // Equatorial samples belong to the last bin
+        long ibin = std::min(long(beta / wbin), nbin - 1);
         ++my_hits[ibin];
     }
 
@@ -306,7 +307,7 @@ void convolver::distribute_colatitudes(levels::arr<double> &pntarr,
         double divisor = cores - corenum + 1;
         double nhit_target = nhitleft / divisor;
         long bin_hit = 0;
-        while (ibin < nbin) {
+        while (ibin < nbin - 1) {
             ++ibin;
             // Skip over isolatitudes that have no hits
             if (hits[ibin] != 0) {
-- 
2.43.0


From 09b7a67de69868673a49c2c3d2bebee2554db6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:28 +0000
Subject: [PATCH 02/26] fix: reject illegal co-latitudes on every task, NaN
 included

Only the task that owned the illegal sample left convolve(), all others
waited for it in the next collective call. NaN passed the check.
---
 src/conviqt_math.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index 7ae63f4..49d0977 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -1506,13 +1506,25 @@ int convolver::convolve(pointing &pntarr, bool calibrate) {
 
     // Check the angles for conformity
 
+    // All tasks must agree on raising the error or the remaining ones
+    // would wait for this task forever
+
+    int nbad = 0, nbad_tot = 0;
+    double bad_theta = 0;
     for (long i = 0; i < totsize; ++i) {
         double theta = pntarr[5 * i + 1];
-        if (theta < 0 || theta > pi) {
-            throw std::runtime_error("convolver::convolve: Illegal theta: " +
-                                     std::to_string(theta) + " not in 0..pi");
+        if (!(theta >= 0 && theta <= pi)) {
+            nbad = 1;
+            bad_theta = theta;
         }
     }
+    mpiMgr.allreduce(nbad, nbad_tot, mpiMgr.Sum);
+    if (nbad) {
+        throw std::runtime_error("convolver::convolve: Illegal theta: " +
+                                 std::to_string(bad_theta) + " not in 0..pi");
+    } else if (nbad_tot) {
+        throw std::runtime_error("convolver::convolve: Illegal theta on another task");
+    }
 
     // distribute the co-latitudes.
 
-- 
2.43.0


From a1244e8a0ea80b8a2a12f8f5eca34b1264422c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:28 +0000
Subject: [PATCH 03/26] fix: all tasks take part in the pointing redistribution

A task that neither had nor received samples skipped the collective
calls and the convolution never returned.
---
 levels/cxxsupport/mpi_support.cc |  2 +-
 src/conviqt_math.cpp             | 30 ++++++++++++++----------------
 2 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/levels/cxxsupport/mpi_support.cc b/levels/cxxsupport/mpi_support.cc
index 21ee6b5..842f1bf 100644
--- a/levels/cxxsupport/mpi_support.cc
+++ b/levels/cxxsupport/mpi_support.cc
@@ -53,7 +53,7 @@ using namespace std;
 namespace {
 
 void assert_unequal (const void *a, const void *b)
-  { levels_assert (a!=b,"input and output buffers must not be identical"); }
+  { levels_assert ((a!=b)||(a==0),"input and output buffers must not be identical"); }
 
 } // unnamed namespace
 
diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index 49d0977..9ad7a31 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -1568,14 +1568,14 @@ int convolver::convolve(pointing &pntarr, bool calibrate) {
 
     // Redistribute the data from pntarr2 to outpntarr
 
-    if (totsize != 0 || outBetaSegSize != 0) {
-        mpiMgr.barrier();
-        t1 = mpiMgr.Wtime();
-        mpiMgr.all2allv(pntarr2, inBetaSeg, inOffset,
-                        outpntarr, outBetaSeg, outOffset, outBetaSegSize);
-        t_alltoall += mpiMgr.Wtime() - t1;
-        ++n_alltoall;
-    }
+    // This is a collective call: tasks without samples must join, too.
+
+    mpiMgr.barrier();
+    t1 = mpiMgr.Wtime();
+    mpiMgr.all2allv(pntarr2, inBetaSeg, inOffset,
+                    outpntarr, outBetaSeg, outOffset, outBetaSegSize);
+    t_alltoall += mpiMgr.Wtime() - t1;
+    ++n_alltoall;
 
     if (totsize > 0) {
         pntarr2.dealloc();
@@ -1633,14 +1633,12 @@ int convolver::convolve(pointing &pntarr, bool calibrate) {
 
     // Communicate the pointing and TOD to the original owners
 
-    if (totsize != 0 || ntod != 0) {
-        mpiMgr.barrier();
-        t1 = mpiMgr.Wtime();
-        mpiMgr.all2allv(outpntarr, outBetaSeg, outOffset, pntarr,
-                        inBetaSeg, inOffset, 5 * totsize);
-        t_alltoall += mpiMgr.Wtime() - t1;
-        ++n_alltoall;
-    }
+    mpiMgr.barrier();
+    t1 = mpiMgr.Wtime();
+    mpiMgr.all2allv(outpntarr, outBetaSeg, outOffset, pntarr,
+                    inBetaSeg, inOffset, 5 * totsize);
+    t_alltoall += mpiMgr.Wtime() - t1;
+    ++n_alltoall;
 
     if (ntod != 0) {
         outpntarr.dealloc();
-- 
2.43.0


From 94d0fc1d060e5e0431160be74941ddd38487ce2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:28 +0000
Subject: [PATCH 04/26] fix: beam::read keeps the requested mmax and forgets an
 old normalization

The beam expansion was stored up to mmax = beamlmax (-1 by default)
instead of beammmax, and a beam read into a normalized object still
claimed to be normalized.
---
 src/conviqt_io.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/conviqt_io.cpp b/src/conviqt_io.cpp
index ebd7413..5789e5e 100644
--- a/src/conviqt_io.cpp
+++ b/src/conviqt_io.cpp
@@ -45,11 +45,12 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
     }
     // mmax
     if (beammmax > 0) {
-        mmax = beamlmax;
+        mmax = std::min(lmax, beammmax);
     } else {
         mmax = std::min((int)lmax, mmax_file);
     }
     fname = infile_beam;
+    normalized_ = false;
 
     blmT_.Set(lmax, mmax);
     if (pol) {
-- 
2.43.0


From 3485de5b97f7534733cee4897888861b757f708b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:28 +0000
Subject: [PATCH 05/26] fix: raise beam and sky input errors on every task

When the root task could not read the file it left read() and all other
tasks waited for its broadcast forever.
---
 src/conviqt_io.cpp | 70 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 54 insertions(+), 16 deletions(-)

diff --git a/src/conviqt_io.cpp b/src/conviqt_io.cpp
index 5789e5e..09e7831 100644
--- a/src/conviqt_io.cpp
+++ b/src/conviqt_io.cpp
@@ -21,13 +21,23 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
 
     pol = beampol;
     int lmax_file, mmax_file;
+    // An error on the root task must be raised on every task
+    int err = 0;
     if (rank == 0) {
-        if (pol) {
-            get_almsize_pol(infile_beam, lmax_file, mmax_file);
-        } else {
-            get_almsize(infile_beam, lmax_file, mmax_file);
+        try {
+            if (pol) {
+                get_almsize_pol(infile_beam, lmax_file, mmax_file);
+            } else {
+                get_almsize(infile_beam, lmax_file, mmax_file);
+            }
+        } catch (...) {
+            err = 1;
+            mpiMgr.bcast(err);
+            throw;
         }
     }
+    mpiMgr.bcast(err);
+    if (err) throw std::runtime_error("Root task failed to read " + infile_beam);
     mpiMgr.bcast(lmax_file);
     mpiMgr.bcast(mmax_file);
     // Ensure that the beam in the file has a high enough expansion order.
@@ -61,16 +71,25 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
     long blmsize = (mmax + 1) * (mmax + 2) + 2 * (mmax + 1) * (lmax - mmax);
 
     if (rank == 0) {
-        if (pol) {
-            read_Alm_from_fits(infile_beam, blmT_, blmG_, blmC_, lmax, mmax);
-        } else {
-            read_Alm_from_fits(infile_beam, blmT_, lmax, mmax);
+        try {
+            if (pol) {
+                read_Alm_from_fits(infile_beam, blmT_, blmG_, blmC_, lmax, mmax);
+            } else {
+                read_Alm_from_fits(infile_beam, blmT_, lmax, mmax);
+            }
+        } catch (...) {
+            err = 1;
+            mpiMgr.bcast(err);
+            throw;
         }
         if (verbosity > 5) {
             std::cout << "Done reading beam alms on task = " << rank << std::endl;
         }
     }
 
+    mpiMgr.bcast(err);
+    if (err) throw std::runtime_error("Root task failed to read " + infile_beam);
+
     mpiMgr.bcastRaw(&blmT_(0, 0).re, blmsize, 0);
     if (pol) {
         mpiMgr.bcastRaw(&blmG_(0, 0).re, blmsize, 0);
@@ -115,13 +134,23 @@ int sky::read(long skylmax, bool skypol,
 
     pol = skypol;
     int lmax_file, mmax_file;
+    // An error on the root task must be raised on every task
+    int err = 0;
     if (rank == 0) {
-        if (pol) {
-            get_almsize_pol(infile_sky, lmax_file, mmax_file);
-        } else {
-            get_almsize(infile_sky, lmax_file, mmax_file);
+        try {
+            if (pol) {
+                get_almsize_pol(infile_sky, lmax_file, mmax_file);
+            } else {
+                get_almsize(infile_sky, lmax_file, mmax_file);
+            }
+        } catch (...) {
+            err = 1;
+            mpiMgr.bcast(err);
+            throw;
         }
     }
+    mpiMgr.bcast(err);
+    if (err) throw std::runtime_error("Root task failed to read " + infile_sky);
     mpiMgr.bcast(lmax_file);
     mpiMgr.bcast(mmax_file);
     // If user provided skylmax, ensure that the file has high enough
@@ -151,16 +180,25 @@ int sky::read(long skylmax, bool skypol,
     long slmsize = (lmax + 1) * (lmax + 2);
 
     if (rank == 0) {
-        if (pol) {
-            read_Alm_from_fits(infile_sky, slmT_, slmG_, slmC_, lmax, mmax);
-        } else {
-            read_Alm_from_fits (infile_sky, slmT_, lmax, mmax);
+        try {
+            if (pol) {
+                read_Alm_from_fits(infile_sky, slmT_, slmG_, slmC_, lmax, mmax);
+            } else {
+                read_Alm_from_fits (infile_sky, slmT_, lmax, mmax);
+            }
+        } catch (...) {
+            err = 1;
+            mpiMgr.bcast(err);
+            throw;
         }
         if (verbosity > 5) {
             std::cout << "Done reading sky alms on task = " << rank << std::endl;
         }
     }
 
+    mpiMgr.bcast(err);
+    if (err) throw std::runtime_error("Root task failed to read " + infile_sky);
+
     mpiMgr.bcastRaw(&slmT_(0, 0).re, slmsize, 0);
     if (pol) {
         mpiMgr.bcastRaw(&slmG_(0, 0).re, slmsize, 0);
-- 
2.43.0


From 66145ef2b8bd52469cbd8aa787f9324df3c52e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:28 +0000
Subject: [PATCH 06/26] fix: never convolve beyond the expansion order of the
 inputs

The default lmax was the larger of the two expansion orders, mmax could
exceed lmax, and set_sky() / set_beam() accepted expansions that are too
short: all of them read past the end of the coefficient arrays. lmax = 0
and negative orders terminated the program in the middle of convolve().
---
 src/conviqt_math.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index 9ad7a31..5d6a5ab 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -121,18 +121,25 @@ convolver::convolver(sky *s, beam *b, detector *d, bool pol,
     const int lmax_sky = s->get_lmax();
     const int lmax_beam = b->get_lmax();
     if (lmax < 0) {
-        this->lmax = std::max(lmax_beam, lmax_sky);
+        this->lmax = std::min(lmax_beam, lmax_sky);
     } else if (lmax > lmax_sky || lmax > lmax_beam) {
         throw std::runtime_error("Convolver lmax exceeds input expansion order.");
     }
 
     const int mmax_beam = b->get_mmax();
     if (beammmax < 0) {
-        this->beammmax = mmax_beam;
-    } else if (beammmax > mmax_beam) {
+        this->beammmax = std::min(long(mmax_beam), this->lmax);
+    } else if (beammmax > mmax_beam || beammmax > this->lmax) {
         throw std::runtime_error("Convolver mmax exceeds input expansion order.");
     }
 
+    if (this->lmax < 1) {
+        throw std::runtime_error("Convolver lmax must be positive.");
+    }
+    if (order < 0) {
+        throw std::runtime_error("Convolver order must not be negative.");
+    }
+
     // data cube gridding
 
     npoints = order + 1;
@@ -197,6 +204,10 @@ convolver::convolver(sky *s, beam *b, detector *d, bool pol,
 
 int convolver::set_sky(sky *s) {
 
+  if (lmax > s->get_lmax()) {
+    throw std::runtime_error("Convolver lmax exceeds input expansion order.");
+  }
+
   this->s = s;
 
   return 0;
@@ -204,6 +215,13 @@ int convolver::set_sky(sky *s) {
 
 int convolver::set_beam(beam *b) {
 
+  if (lmax > b->get_lmax()) {
+    throw std::runtime_error("Convolver lmax exceeds input expansion order.");
+  }
+  if (beammmax > b->get_mmax()) {
+    throw std::runtime_error("Convolver mmax exceeds input expansion order.");
+  }
+
   this->b = b;
 
   return 0;
-- 
2.43.0


From 779e1a4f16b5e50746b8bd9e7fa3135eaafc732d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:28 +0000
Subject: [PATCH 07/26] fix: wrap the longitude stencil as often as needed

With more interpolation points than longitudes in the data cube
(order > 2 * lmax) the stencil wraps around more than once and the single
wrap read past the end of the data cube.
---
 src/conviqt_math.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index 5d6a5ab..1fe2e59 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -1420,9 +1420,10 @@ void convolver::conviqt_tod_loop(levels::arr<long> &lowerIndex,
             frac = levels::fmodulo(frac, double(nphi));
             int iphi0 = int(frac) - ioffset;
             frac -= iphi0;
-            if (iphi0 >= nphi) {
+            while (iphi0 >= nphi) {
                 iphi0 -= nphi;
-            } else if (iphi0 < 0) {
+            }
+            while (iphi0 < 0) {
                 iphi0 += nphi;
             }
             weight_ncm(frac, wgt2);
@@ -1441,7 +1442,7 @@ void convolver::conviqt_tod_loop(levels::arr<long> &lowerIndex,
             for (int iphi = 0; iphi < npoints; ++iphi) {
                 const double weight = wgt2[iphi] * weight1;
                 long iphinew = iphi0 + iphi;
-                if (iphinew >= nphi) {
+                while (iphinew >= nphi) {
                     iphinew -= nphi;
                 }
                 const xcomplex<double> *ca = &(conviqtarr[iphinew][0]);
-- 
2.43.0


From 655714a661eb840d21392bf57e17651682049593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:28 +0000
Subject: [PATCH 08/26] fix: the C interface reports errors instead of throwing

conviqt_convolver_convolve() passed exceptions on to the C caller, and so
did the functions that create objects.
---
 src/cconviqt.cpp | 56 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 10 deletions(-)

diff --git a/src/cconviqt.cpp b/src/cconviqt.cpp
index ee7e044..7900609 100644
--- a/src/cconviqt.cpp
+++ b/src/cconviqt.cpp
@@ -9,7 +9,13 @@ extern "C" {
 
 #include <string.h>
 
-    void *conviqt_beam_new() { return new(std::nothrow) conviqt::beam; }
+    void *conviqt_beam_new() {
+        try {
+            return new conviqt::beam;
+        } catch (...) {
+            return NULL;
+        }
+    }
 
     int conviqt_beam_del(void *ptr) {
         try {
@@ -103,7 +109,13 @@ extern "C" {
         }
     }
 
-    void *conviqt_sky_new() { return new(std::nothrow) conviqt::sky; }
+    void *conviqt_sky_new() {
+        try {
+            return new conviqt::sky;
+        } catch (...) {
+            return NULL;
+        }
+    }
 
     int conviqt_sky_del(void *ptr) {
         try {
@@ -186,10 +198,20 @@ extern "C" {
         }
     }
 
-    void *conviqt_detector_new() { return new(std::nothrow) conviqt::detector; }
+    void *conviqt_detector_new() {
+        try {
+            return new conviqt::detector;
+        } catch (...) {
+            return NULL;
+        }
+    }
 
     void *conviqt_detector_new_with_id(char *det_id) {
-        return new(std::nothrow) conviqt::detector(det_id);
+        try {
+            return new conviqt::detector(det_id);
+        } catch (...) {
+            return NULL;
+        }
     }
 
     int conviqt_detector_del(void *ptr) {
@@ -242,7 +264,13 @@ extern "C" {
         return 0;
     }
 
-    void *conviqt_pointing_new() { return new(std::nothrow) conviqt::pointing; }
+    void *conviqt_pointing_new() {
+        try {
+            return new conviqt::pointing;
+        } catch (...) {
+            return NULL;
+        }
+    }
 
     int conviqt_pointing_del(void *ptr) {
         try {
@@ -314,9 +342,18 @@ extern "C" {
         conviqt::beam *beamref = reinterpret_cast< conviqt::beam * >(beamptr);
         conviqt::detector *detref = reinterpret_cast< conviqt::detector * >(detptr);
 
-        return new(std::nothrow) conviqt::convolver(skyref, beamref, detref, pol,
-                                                    lmax, beammmax, order,
-                                                    verbosity, comm);
+        try {
+            return new conviqt::convolver(skyref, beamref, detref, pol,
+                                          lmax, beammmax, order,
+                                          verbosity, comm);
+        } catch (std::exception &e) {
+            std::cerr << "conviqt_convolver_new threw an exception: " << e.what()
+                      << std::endl;
+            return NULL;
+        } catch (...) {
+            std::cerr << "conviqt_convolver_new threw an exception." << std::endl;
+            return NULL;
+        }
     }
 
     int conviqt_convolver_del(void *ptr) {
@@ -377,8 +414,7 @@ extern "C" {
 
             cnvref->convolve(*pntref, calibrate);
         } catch (...) {
-            std::cout << "convolve threw an exception:" << std::endl;
-            throw;
+            std::cerr << "conviqt_convolver_convolve threw an exception." << std::endl;
             return -1;
         }
         return 0;
-- 
2.43.0


From 6e5b803311032dc5045113b0f0e958e968691d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:28 +0000
Subject: [PATCH 09/26] fix: initialize the members of detector, beam and sky

The polarization efficiency of a detector without set_epsilon() and the
expansion order of a beam or sky before read() were indeterminate.
---
 src/conviqt.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/conviqt.hpp b/src/conviqt.hpp
index c73594f..2ee9128 100644
--- a/src/conviqt.hpp
+++ b/src/conviqt.hpp
@@ -53,8 +53,8 @@ public :
 private :
     Alm< xcomplex<float> > blmT_, blmG_, blmC_;
     bool normalized_;
-    long lmax, mmax;
-    bool pol;
+    long lmax = -1, mmax = -1;
+    bool pol = false;
     int verbosity = 0;
     std::string fname;
 };
@@ -78,9 +78,9 @@ public :
     void remove_dipole(void);
 private :
     Alm< xcomplex<float> > slmT_, slmG_, slmC_;
-    long lmax;
-    bool pol;
-    double fwhm_deconv;
+    long lmax = -1;
+    bool pol = false;
+    double fwhm_deconv = 0;
     int verbosity = 0;
     std::string fname;
 };
@@ -113,7 +113,7 @@ public :
 private :
 
     std::string det_id_;
-    double epsilon_;
+    double epsilon_ = 0;
     int verbosity = 0;
 
 };
-- 
2.43.0


From bb4a9e044fe0353bd52741505b6ec7e74f4c2e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:28 +0000
Subject: [PATCH 10/26] fix: arr::alloc leaves a valid array when the
 allocation fails

The array kept a pointer to the released memory and the new size, its
destructor released the memory again.
---
 levels/cxxsupport/ls_arr.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/levels/cxxsupport/ls_arr.h b/levels/cxxsupport/ls_arr.h
index 1caf44a..e856a30 100644
--- a/levels/cxxsupport/ls_arr.h
+++ b/levels/cxxsupport/ls_arr.h
@@ -219,10 +219,9 @@ template <typename T, typename storageManager> class arrT: public arr_ref<T>
     void alloc (tsize sz)
       {
       if (sz==this->s) return;
-      if (own) stm.dealloc(this->d);
-      this->s = sz;
+      dealloc(); // leaves an empty array if the allocation fails
       this->d = stm.alloc(sz);
-      own = true;
+      this->s = sz;
       }
     /*! Allocates space for \a sz elements. If \a sz is the
         same as the current size, no reallocation is performed.
-- 
2.43.0


From 078bc7ebdcd08cb264b4415e3b6148dab192e074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:15 +0000
Subject: [PATCH 11/26] fix: a failing close in ~fitshandle no longer
 terminates the program

---
 levels/cxxsupport/fitshandle.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index bf770f7..7e13756 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -180,8 +180,8 @@ void fitshandle::clean_all()
   if (!fptr) return;
   clean_data();
   fits_close_file (FPTR, &status);
+  fptr=0; // the file is gone even if closing it reported an error
   check_errors();
-  fptr=0;
   }
 
 bool fitshandle::table_hdu (tsize col) const
@@ -298,7 +298,12 @@ fitshandle::fitshandle ()
   : status(0), fptr(0), hdutype_(INVALID), bitpix_(INVALID), nrows_(0) {}
 
 fitshandle::~fitshandle()
-  { clean_all(); }
+  {
+  try
+    { clean_all(); }
+  catch (...) // a destructor must not throw; check_errors() has printed
+    {}
+  }
 
 void fitshandle::open (const string &fname)
   {
-- 
2.43.0


From d5fec37ed8110e15209efd8e6d751fc67b805cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:15 +0000
Subject: [PATCH 12/26] fix: reject file names longer than CFITSIO supports

---
 levels/cxxsupport/fitshandle.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index 7e13756..5276bce 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -311,6 +311,7 @@ void fitshandle::open (const string &fname)
   fitsfile *ptr=NULL;
   // Fixed a Valgrind error by using a fixed length char array for the file name
   char fn[FLEN_FILENAME];
+  levels_assert(fname.length()<FLEN_FILENAME,"file name too long: "+fname);
   std::copy(fname.begin(), fname.end(), fn);
   fn[ fname.length() ] = '\0';
   //fits_open_file(&ptr, fname.c_str(), READONLY, &status);
-- 
2.43.0


From 5f9a5384a13cfdc7e2372d2a34bb9e4e9e755068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:15 +0000
Subject: [PATCH 13/26] fix: count rows, not elements, after writing to a
 vector column

---
 levels/cxxsupport/fitshandle.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index 5276bce..a816bd9 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -279,7 +279,7 @@ void fitshandle::write_col (int colnum, const void *data, int64 ndata,
   int64 felem = offset%repc+1;
   fits_write_col (FPTR, type2ftc(type), colnum, frow, felem, ndata,
     const_cast<void *>(data), &status);
-  nrows_ = max(nrows_,offset+ndata);
+  nrows_ = max(nrows_,(offset+ndata+repc-1)/repc);
   check_errors();
   }
 
-- 
2.43.0


From 792428cf6121be7eb132be8ef0447a2af8618c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:59 +0000
Subject: [PATCH 14/26] fix: rotmatrix::toAxisAngle divides by zero for half
 turns about axes with two equal components

---
 levels/cxxsupport/rotmatrix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/levels/cxxsupport/rotmatrix.cc b/levels/cxxsupport/rotmatrix.cc
index d56feec..a858a77 100644
--- a/levels/cxxsupport/rotmatrix.cc
+++ b/levels/cxxsupport/rotmatrix.cc
@@ -90,7 +90,7 @@ void rotmatrix::toAxisAngle (vec3 &axis, double &angle) const
   angle = pi;
 
   int choice = 0; // assume entry[0][0] is the largest
-  if ((entry[1][1]>entry[0][0]) && (entry[1][1]>entry[2][2])) choice=1;
+  if ((entry[1][1]>entry[0][0]) && (entry[1][1]>=entry[2][2])) choice=1;
   if ((entry[2][2]>entry[0][0]) && (entry[2][2]>entry[1][1])) choice=2;
 
   if (choice==0)
-- 
2.43.0


From a2ed3064ebac6eb3fcdbe6edba9bc468ca8fa54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:43 +0000
Subject: [PATCH 15/26] fix: PowSpec::Set keeps spectra of the former contents,
 default constructor leaves num_specs undefined

---
 levels/Healpix_cxx/ls_powspec.h | 2 +-
 levels/Healpix_cxx/powspec.cc   | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/levels/Healpix_cxx/ls_powspec.h b/levels/Healpix_cxx/ls_powspec.h
index 3c83a45..157f68a 100644
--- a/levels/Healpix_cxx/ls_powspec.h
+++ b/levels/Healpix_cxx/ls_powspec.h
@@ -47,7 +47,7 @@ class PowSpec
 
   public:
     /*! */
-    PowSpec() {}
+    PowSpec() : num_specs(0) {}
     /*! Constructs a \a PowSpec with \a nspec components and a maximum
         multipole of \a lmax. \a nspec can be 1 (TT), 4 (TT,GG,CC,TG) or
         6 (TT,GG,CC,TG,TC,GC). */
diff --git a/levels/Healpix_cxx/powspec.cc b/levels/Healpix_cxx/powspec.cc
index a9ab576..3b9b70f 100644
--- a/levels/Healpix_cxx/powspec.cc
+++ b/levels/Healpix_cxx/powspec.cc
@@ -93,9 +93,10 @@ bool PowSpec::consistentAutoPowspec() const
 
 void PowSpec::Set(int nspec, int lmax)
   {
-  num_specs=nspec;
-  levels_assert ((num_specs==1) || (num_specs==4) || (num_specs==6),
+  levels_assert ((nspec==1) || (nspec==4) || (nspec==6),
     "wrong number of spectrums");
+  dealloc();
+  num_specs=nspec;
   tt_.alloc(lmax+1);
   if (num_specs>1)
     {
-- 
2.43.0


From 4db02dfc8d4c74e70b870ed8ca97370a84fe2d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:43 +0000
Subject: [PATCH 16/26] fix: MPI_Manager::sendrecv and sendrecv_replace
 exchange nothing between different tasks

---
 levels/cxxsupport/mpi_support.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/levels/cxxsupport/mpi_support.cc b/levels/cxxsupport/mpi_support.cc
index 842f1bf..9d0cdc0 100644
--- a/levels/cxxsupport/mpi_support.cc
+++ b/levels/cxxsupport/mpi_support.cc
@@ -207,7 +207,6 @@ void MPI_Manager::recvRawVoid (void *data, NDT type, tsize num, tsize src) const
 void MPI_Manager::sendrecvRawVoid (const void *sendbuf, tsize sendcnt,
   tsize dest, void *recvbuf, tsize recvcnt, tsize src, NDT type) const
   {
-  if ((rank_!=int(src)) || (rank_!=int(dest))) return;
   assert_unequal(sendbuf,recvbuf);
 
   MPI_Datatype dtype = ndt2mpi(type);
@@ -217,8 +216,7 @@ void MPI_Manager::sendrecvRawVoid (const void *sendbuf, tsize sendcnt,
 void MPI_Manager::sendrecv_replaceRawVoid (void *data, NDT type, tsize num,
   tsize dest, tsize src) const
   {
-  if (dest==src) return;
-  if ((rank_!=int(src)) || (rank_!=int(dest))) return;
+  if ((rank_==int(src)) && (rank_==int(dest))) return;
 
   MPI_Sendrecv_replace (data,num,ndt2mpi(type),dest,0,src,0,LS_COMM,
     MPI_STATUS_IGNORE);
-- 
2.43.0


From c7f9e5c408d1a790219fc52f2100b89f395384ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:01 +0000
Subject: [PATCH 17/26] fix: create_alm_pol drops the G and C spectra of
 multipoles without T power

---
 levels/Healpix_cxx/alm_powspec_tools.cc | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/levels/Healpix_cxx/alm_powspec_tools.cc b/levels/Healpix_cxx/alm_powspec_tools.cc
index 82fe4fc..c88c1ea 100644
--- a/levels/Healpix_cxx/alm_powspec_tools.cc
+++ b/levels/Healpix_cxx/alm_powspec_tools.cc
@@ -105,20 +105,17 @@ template<typename T> void create_alm_pol
 
   for (int l=0; l<=lmax; ++l)
     {
-    double rms_g2 = 0;
-    double rms_cc = 0;
+    double rms_g2 = powspec.gg(l);
+    double rms_cc = ::sqrt(powspec.cc(l));
     if (powspec.tt(l) != 0)
+      rms_g2 -= (powspec.tg(l)/powspec.tt(l))*powspec.tg(l);
+    if (rms_g2 <= 0)
       {
-      rms_g2 = powspec.gg(l) - (powspec.tg(l)/powspec.tt(l))*powspec.tg(l);
-      if (rms_g2 <= 0)
-        {
-          levels_assert (::abs(rms_g2) <= 1e-8*::abs(powspec.gg(l)),
-          "Inconsistent TT, GG and TG spectra at l="+dataToString(l));
-        rms_g2 = 0;
-        }
-      rms_g2 = ::sqrt(rms_g2);
-      rms_cc = ::sqrt(powspec.cc(l));
+        levels_assert (::abs(rms_g2) <= 1e-8*::abs(powspec.gg(l)),
+        "Inconsistent TT, GG and TG spectra at l="+dataToString(l));
+      rms_g2 = 0;
       }
+    rms_g2 = ::sqrt(rms_g2);
     almG(l,0) += T(rng.rand_gauss()*rms_g2);
     almC(l,0)  = T(rng.rand_gauss()*rms_cc);
 
-- 
2.43.0


From f9e30303b279484a7d963da08feac08b74f2ac63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:01 +0000
Subject: [PATCH 18/26] fix: MPI_Manager::reduce and reduce_s for arrays do not
 compile

---
 levels/cxxsupport/ls_mpi_support.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/levels/cxxsupport/ls_mpi_support.h b/levels/cxxsupport/ls_mpi_support.h
index f8872af..98ee464 100644
--- a/levels/cxxsupport/ls_mpi_support.h
+++ b/levels/cxxsupport/ls_mpi_support.h
@@ -198,7 +198,7 @@ class MPI_Manager
       }
     template<typename T> void reduce_s (const arr<T> &in, redOp op, int root=0)
       const
-      { reduceRaw (&in[0], 0, in.size(), op, root); }
+      { reduceRaw (&in[0], static_cast<T *>(0), in.size(), op, root); }
 
     void allgatherRawVoid (const void *in, void *out, NDT type, tsize num)
       const;
-- 
2.43.0


From 928d463363643bb81316ab12c6bd67e0e914d52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:23 +0000
Subject: [PATCH 19/26] fix: arr2, arr2b and arr3 keep their old sizes when an
 allocation fails

---
 levels/cxxsupport/ls_arr.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/levels/cxxsupport/ls_arr.h b/levels/cxxsupport/ls_arr.h
index e856a30..cd79589 100644
--- a/levels/cxxsupport/ls_arr.h
+++ b/levels/cxxsupport/ls_arr.h
@@ -383,7 +383,10 @@ template <typename T, typename storageManager> class arr2T
     void alloc (tsize sz1, tsize sz2)
       {
       if (sz1*sz2 != d.size())
+        {
+        s1=s2=0; // leaves an empty array if the allocation fails
         d.alloc(sz1*sz2);
+        }
       s1=sz1; s2=sz2;
       }
     /*! Allocates space for an array with \a sz1*sz2 elements.
@@ -419,7 +422,7 @@ template <typename T, typename storageManager> class arr2T
       {
       if (this==&orig) return *this;
       alloc (orig.s1, orig.s2);
-      d = orig.d;
+      for (tsize m=0; m<s1*s2; ++m) d[m] = orig.d[m];
       return *this;
       }
 
@@ -539,9 +542,10 @@ template <typename T> class arr2b
     void alloc (tsize sz1, tsize sz2)
       {
       if ((s1==sz1) && (s2==sz2)) return;
+      s1=s2=0; // leaves an empty array if the allocation fails
+      d.alloc(sz1*sz2);
+      d1.alloc(sz1);
       s1=sz1; s2=sz2;
-      d.alloc(s1*s2);
-      d1.alloc(s1);
       fill_d1();
       }
     /*! Deallocates the space and makes the array zero-sized. */
@@ -604,6 +608,7 @@ template <typename T> class arr3
         The content of the array is undefined on exit. */
     void alloc (tsize sz1, tsize sz2, tsize sz3)
       {
+      s1=s2=s3=s2s3=0; // leaves an empty array if the allocation fails
       d.alloc(sz1*sz2*sz3);
       s1=sz1; s2=sz2; s3=sz3; s2s3=s2*s3;
       }
-- 
2.43.0


From f35067b0314d4ff53c0cb0442d3f0b1cba9048e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:57 +0000
Subject: [PATCH 20/26] fix: Python constructors do not notice that the C
 library returned no object

ctypes turns a NULL result into None, so the comparison with 0 in
Convolver was never true; the other constructors did not check at all
and passed the null pointer on.
---
 python/libconviqt_wrapper/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/libconviqt_wrapper/__init__.py b/python/libconviqt_wrapper/__init__.py
index fd55395..d4de220 100644
--- a/python/libconviqt_wrapper/__init__.py
+++ b/python/libconviqt_wrapper/__init__.py
@@ -91,6 +91,8 @@ if available:
 
         def __init__(self, lmax, mmax, pol, beamfile, comm):
             self._beam = _conviqt.conviqt_beam_new()
+            if not self._beam:
+                raise RuntimeError("Failed to instantiate beam")
             self._pol = pol
             err = _conviqt.conviqt_beam_read(
                 self._beam, lmax, mmax, pol, beamfile.encode(), encode_comm(comm)
@@ -223,6 +225,8 @@ if available:
 
         def __init__(self, lmax, pol, skyfile, fwhm, comm):
             self._sky = _conviqt.conviqt_sky_new()
+            if not self._sky:
+                raise RuntimeError("Failed to instantiate sky")
             self._pol = pol
             err = _conviqt.conviqt_sky_read(
                 self._sky, lmax, pol, skyfile.encode(), fwhm, encode_comm(comm)
@@ -329,6 +333,8 @@ if available:
                 self._det = _conviqt.conviqt_detector_new()
             else:
                 self._det = _conviqt.conviqt_detector_new_with_id(name.encode())
+            if not self._det:
+                raise RuntimeError("Failed to instantiate detector")
             if epsilon is not None:
                 self.set_epsilon(epsilon)
 
@@ -384,6 +390,8 @@ if available:
 
         def __init__(self, nrow=None):
             self._pnt = _conviqt.conviqt_pointing_new()
+            if not self._pnt:
+                raise RuntimeError("Failed to instantiate pointing")
             if nrow is not None:
                 self.alloc(nrow)
 
@@ -451,7 +459,7 @@ if available:
                 verbosity,
                 encode_comm(comm),
             )
-            if self._conv == 0:
+            if not self._conv:
                 raise RuntimeError("Failed to instantiate convolver")
 
         def __del__(self):
-- 
2.43.0


From 6f51f0ccc4e698d6c523fc554a46c25682e4d4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:57 +0000
Subject: [PATCH 21/26] fix: Python remove_monopole, remove_dipole and get_id
 ignore error codes

---
 python/libconviqt_wrapper/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/libconviqt_wrapper/__init__.py b/python/libconviqt_wrapper/__init__.py
index d4de220..3381014 100644
--- a/python/libconviqt_wrapper/__init__.py
+++ b/python/libconviqt_wrapper/__init__.py
@@ -247,9 +247,13 @@ if available:
 
         def remove_monopole(self):
             err = _conviqt.conviqt_sky_remove_monopole(self._sky)
+            if err != 0:
+                raise RuntimeError("Failed to remove monopole")
 
         def remove_dipole(self):
             err = _conviqt.conviqt_sky_remove_dipole(self._sky)
+            if err != 0:
+                raise RuntimeError("Failed to remove dipole")
 
         def num_alms(self):
             lmax = self.lmax()
@@ -363,7 +367,9 @@ if available:
 
         def get_id(self):
             s = ct.create_string_buffer(1024)
-            _conviqt.conviqt_detector_get_id(self._det, s)
+            err = _conviqt.conviqt_detector_get_id(self._det, s)
+            if err != 0:
+                raise RuntimeError("Failed to get detector ID")
             return s.value
 
     # Pointing functions
-- 
2.43.0


From 7dd8b49e39de93beb633f4f6958c0065f2be89b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:57 +0000
Subject: [PATCH 22/26] fix: Python Convolver does not keep its sky, beam and
 detector alive

The C++ convolver only stores pointers; an input without another
reference was deleted before the convolution used it.
---
 python/libconviqt_wrapper/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/libconviqt_wrapper/__init__.py b/python/libconviqt_wrapper/__init__.py
index 3381014..96dea1a 100644
--- a/python/libconviqt_wrapper/__init__.py
+++ b/python/libconviqt_wrapper/__init__.py
@@ -467,6 +467,8 @@ if available:
             )
             if not self._conv:
                 raise RuntimeError("Failed to instantiate convolver")
+            # The library keeps pointers to these objects
+            self._inputs = (sky, beam, detector)
 
         def __del__(self):
             try:
-- 
2.43.0


From 44c91efa1c9e3be20762205e2d57337dfece92ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:57 +0000
Subject: [PATCH 23/26] fix: Python Pointing.data() raises for an empty
 pointing

A task without samples is legal. After a failed alloc() the old code also
took the new number of rows for granted.
---
 python/libconviqt_wrapper/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/libconviqt_wrapper/__init__.py b/python/libconviqt_wrapper/__init__.py
index 96dea1a..cc97fbb 100644
--- a/python/libconviqt_wrapper/__init__.py
+++ b/python/libconviqt_wrapper/__init__.py
@@ -413,14 +413,18 @@ if available:
                 )
 
         def alloc(self, nrow):
-            self._nrow = nrow
-            err = _conviqt.conviqt_pointing_alloc(self._pnt, self._nrow * self._ncol)
+            self._nrow = 0
+            err = _conviqt.conviqt_pointing_alloc(self._pnt, nrow * self._ncol)
             if err != 0:
                 raise RuntimeError(
                     "Failed to allocate {} rows to pointing".format(nrow)
                 )
+            self._nrow = nrow
 
         def data(self):
+            if self._nrow == 0:
+                # The library has no memory to point to
+                return np.zeros([0, self._ncol])
             buf = _conviqt.conviqt_pointing_data(self._pnt)
             arr = np.ctypeslib.as_array(buf, shape=(self._nrow, self._ncol))
             return arr
-- 
2.43.0


From 335946a8e4fa0da7066ed0d663a27fb2e584ffd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:57 +0000
Subject: [PATCH 24/26] fix: Python set_data overwrites T before it refuses G
 or C of the wrong size

---
 python/libconviqt_wrapper/__init__.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/python/libconviqt_wrapper/__init__.py b/python/libconviqt_wrapper/__init__.py
index cc97fbb..1b660dd 100644
--- a/python/libconviqt_wrapper/__init__.py
+++ b/python/libconviqt_wrapper/__init__.py
@@ -155,9 +155,12 @@ if available:
         def set_data(self, blm):
             """Overwrite the internal data vectors with the provided b_lm"""
             nelem = self.num_alms()
-            nelem_in = blm[0].size
-            if nelem_in != nelem:
-                raise RuntimeError(f"Cannot set {nelem} b_lm with {nelem_in} values")
+            for i in range(3 if self._pol else 1):
+                nelem_in = blm[i].size
+                if nelem_in != nelem:
+                    raise RuntimeError(
+                        f"Cannot set {nelem} b_lm with {nelem_in} values"
+                    )
             arr = ct.cast(
                 _conviqt.conviqt_beam_Tdata(self._beam), ct.POINTER(ct.c_float)
             )
@@ -279,9 +282,12 @@ if available:
         def set_data(self, slm):
             """Overwrite the internal data vectors with the provided s_lm"""
             nelem = self.num_alms()
-            nelem_in = slm[0].size
-            if nelem_in != nelem:
-                raise RuntimeError(f"Cannot set {nelem} s_lm with {nelem_in} values")
+            for i in range(3 if self._pol else 1):
+                nelem_in = slm[i].size
+                if nelem_in != nelem:
+                    raise RuntimeError(
+                        f"Cannot set {nelem} s_lm with {nelem_in} values"
+                    )
             arr = ct.cast(_conviqt.conviqt_sky_Tdata(self._sky), ct.POINTER(ct.c_float))
             nelem *= 2  # Count real and imaginary parts separately
             ReplaceType = ct.c_float * (nelem)
-- 
2.43.0


From c8105416547666c53427bd9d8807c28906c54307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:04 +0000
Subject: [PATCH 25/26] fix: chunkMaker does not start again when the end of
 the last chunk is beyond 2^64

---
 levels/cxxsupport/ls_share_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/levels/cxxsupport/ls_share_utils.h b/levels/cxxsupport/ls_share_utils.h
index 077c6b9..86aa671 100644
--- a/levels/cxxsupport/ls_share_utils.h
+++ b/levels/cxxsupport/ls_share_utils.h
@@ -76,7 +76,7 @@ class chunkMaker
       if (offset>=s_full) return false;
       start=offset;
       size=min(s_chunk,s_full-offset);
-      offset+=s_chunk;
+      offset+=size;
       return true;
       }
   };
-- 
2.43.0


From 7de7bfbff9c76ed37722badd28a1b65640a1a0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:21 +0000
Subject: [PATCH 26/26] fix: fitshandle::fileName releases its buffer when the
 FITS library fails

---
 levels/cxxsupport/fitshandle.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index a816bd9..292840b 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -352,12 +352,10 @@ void fitshandle::delete_file (const string &name)
 string fitshandle::fileName() const
   {
   levels_assert(connected(),"handle not connected to a file");
-  char *fname = new char[2048];
+  char fname[2048];
   fits_file_name(FPTR, fname, &status);
   check_errors();
-  string result(fname);
-  delete[] fname;
-  return result;
+  return string(fname);
   }
 
 void fitshandle::goto_hdu (int hdu)
-- 
2.43.0

