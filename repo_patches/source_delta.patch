From a51333646313a0a6fe360cd7efb839cad17b7110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:20 +0000
Subject: [PATCH 01/38] fix: push_back() finds the next segment from the
 storage, not from the loop counter

When the last segment was full, push_back() advanced current_segment[], which
init_out_loop(), get_next_segment() and the particle movers also use to count
through the segments.  After any loop over the particles, the next push_back()
into a full segment failed (an assertion in Python and C++) or, in the C++
overloads without the assertion, skipped segments.
---
 SegmentedArrayPair_Module.py | 12 ++++++------
 cpp/SegmentedArrayPair.h     | 17 +++++++++--------
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/SegmentedArrayPair_Module.py b/SegmentedArrayPair_Module.py
index c31db72..ec244bc 100644
--- a/SegmentedArrayPair_Module.py
+++ b/SegmentedArrayPair_Module.py
@@ -107,9 +107,9 @@ class SegmentedArrayPair_C(object):
         # segment, if there is one, or else add a new segment.
         if self.first_available_offset[outSA] == self.segment_length:
             # If another segment is already available, use it. Otherwise, allocate a new
-            # segment.
-            self.current_segment[outSA] += 1
-            if self.current_segment[outSA] < self.nseg[outSA]:
+            # segment.  The segment after the full one is used: current_segment[] can't
+            # tell which one that is, since it also counts through the segments in loops.
+            if self.first_not_full_segment[outSA] + 1 < self.nseg[outSA]:
                 #print("push_back: nseg=", self.nseg[outSA], "first_not_full_segment=", self.first_not_full_segment[outSA])
                 self.first_not_full_segment[outSA] += 1
                 #print("#1 self.first_not_full_segment[outSA]=", self.first_not_full_segment[outSA])
@@ -119,9 +119,9 @@ class SegmentedArrayPair_C(object):
                 # firstAvailableOffset[] = 0
                 # print("push_back: calling add_segment()")
                 self.add_segment(outSA)
-            # These two counters should be the same:                
-            assert (self.first_not_full_segment[outSA] == self.current_segment[outSA]), "first_not_full_segment = %d, current_segment = %d" % (self.first_not_full_segment[outSA], self.current_segment[outSA])
-                
+        # The segment written to is the current one (see get_current_out_segment()).
+        self.current_segment[outSA] = self.first_not_full_segment[outSA]
+
 # Untested:
         if type(item_input) is np_m.ndarray:
             item = item_input[0]
diff --git a/cpp/SegmentedArrayPair.h b/cpp/SegmentedArrayPair.h
index 5c1c28f..fb54f60 100644
--- a/cpp/SegmentedArrayPair.h
+++ b/cpp/SegmentedArrayPair.h
@@ -294,8 +294,7 @@ namespace dnt
           {
             // If another segment is already available, use
             // it. Otherwise, allocate a new segment.
-            current_segment[outSA] += 1;
-            if (current_segment[outSA] < nseg[outSA])
+            if (first_not_full_segment[outSA] + 1 < nseg[outSA])
               {
                 first_not_full_segment[outSA] += 1;
                 first_available_offset[outSA] = 0;
@@ -306,9 +305,9 @@ namespace dnt
                 // nseg[], and sets first_available_offset[] = 0
                 add_segment(outSA);
               };
-            // These two counters should be the same:                
-            assert(first_not_full_segment[outSA] == current_segment[outSA]);
           };
+        // The segment written to is the current one (see get_current_out_segment()).
+        current_segment[outSA] = first_not_full_segment[outSA];
 
         // Use the buffer protocol to get to the contiguous data in the Numpy arrays
         // "out" SA
@@ -363,8 +362,7 @@ namespace dnt
           {
             // If another segment is already available, use
             // it. Otherwise, allocate a new segment.
-            current_segment[outSA] += 1;
-            if (current_segment[outSA] < nseg[outSA])
+            if (first_not_full_segment[outSA] + 1 < nseg[outSA])
               {
                 first_not_full_segment[outSA] += 1;
                 first_available_offset[outSA] = 0;
@@ -376,6 +374,8 @@ namespace dnt
                 add_segment(outSA);
               };
           };
+        // The segment written to is the current one (see get_current_out_segment()).
+        current_segment[outSA] = first_not_full_segment[outSA];
         
         py::buffer_info segInfo = seg_list_pair[outSA][first_not_full_segment[outSA]].request(); // request() returns metadata about the array (ptr, ndim, size, shape)
         const auto pseg = static_cast<Pstruct<PT>*>(segInfo.ptr); // Pointer to a structured Numpy array
@@ -424,8 +424,7 @@ namespace dnt
           {
             // If another segment is already available, use
             // it. Otherwise, allocate a new segment.
-            current_segment[outSA] += 1;
-            if (current_segment[outSA] < nseg[outSA])
+            if (first_not_full_segment[outSA] + 1 < nseg[outSA])
               {
                 first_not_full_segment[outSA] += 1;
                 first_available_offset[outSA] = 0;
@@ -438,6 +437,8 @@ namespace dnt
               };
         
           };
+        // The segment written to is the current one (see get_current_out_segment()).
+        current_segment[outSA] = first_not_full_segment[outSA];
         
         py::buffer_info segInfo = seg_list_pair[outSA][first_not_full_segment[outSA]].request(); // request() returns metadata about the array (ptr, ndim, size, shape)
         const auto pseg = static_cast<Pstruct<PT>*>(segInfo.ptr); // Pointer to a structured Numpy array
-- 
2.43.0


From 714cd13f37a3e0c2ecb5bdab2aaf4e8beb89cc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:32 +0000
Subject: [PATCH 02/38] fix: set_number_of_items() accepts zero items

With no items left (e.g., all the particles of a species were absorbed), the
Python version set the last segment to -1 with a full segment, and the C++
version did the same for a segment length of 1.  The next loop then returned a
segment of stale particles, and the next push_back() failed.
---
 SegmentedArrayPair_Module.py | 5 ++++-
 cpp/SegmentedArrayPair.h     | 5 +++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/SegmentedArrayPair_Module.py b/SegmentedArrayPair_Module.py
index ec244bc..394f574 100644
--- a/SegmentedArrayPair_Module.py
+++ b/SegmentedArrayPair_Module.py
@@ -484,7 +484,10 @@ class SegmentedArrayPair_C(object):
 
         # Compute the segment and offset of the last item. The
         # zero-based index of the last item is n_items-1
-        (seg, offset) = divmod(n_items-1, self.segment_length)
+        if n_items == 0:
+            (seg, offset) = (0, -1) # There's no last item
+        else:
+            (seg, offset) = divmod(n_items-1, self.segment_length)
         
         # print("set_number_of_itemsA: first_not_full_segment=", self.first_not_full_segment[theSA])
         self.first_not_full_segment[theSA] = seg
diff --git a/cpp/SegmentedArrayPair.h b/cpp/SegmentedArrayPair.h
index fb54f60..66c4781 100644
--- a/cpp/SegmentedArrayPair.h
+++ b/cpp/SegmentedArrayPair.h
@@ -234,6 +234,11 @@ namespace dnt
         // (seg, offset) = divmod(n_items-1, self.segment_length)
         auto seg = (py::ssize_t) (n_items-1) / segment_length;
         auto offset = (n_items - 1) % segment_length;
+        if (n_items == 0) // There's no last item
+          {
+            seg = 0;
+            offset = -1;
+          }
 
         first_not_full_segment[theSA] = seg;
         first_available_offset[theSA] = offset+1;
-- 
2.43.0


From d98328ec3add35b56ade2bbc6a51c290b2873323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:32 +0000
Subject: [PATCH 03/38] fix: count a new segment only once it has been
 allocated

If the allocation in add_segment() failed, nseg already counted the missing
segment, and every later push_back() failed with an IndexError.
---
 SegmentedArrayPair_Module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SegmentedArrayPair_Module.py b/SegmentedArrayPair_Module.py
index 394f574..27b9694 100644
--- a/SegmentedArrayPair_Module.py
+++ b/SegmentedArrayPair_Module.py
@@ -227,9 +227,9 @@ class SegmentedArrayPair_C(object):
         # Abbreviations
         # none
 
-        # Add a new segment to the Segmented Array
-        self.nseg[theSA] += 1
+        # Add a new segment to the Segmented Array.  Count it once it's allocated.
         self.seg_list_pair[theSA].append(np_m.empty(self.segment_length, dtype=self.item_dtype))
+        self.nseg[theSA] += 1
 #        self.seg_list_pair[theSA].append(np_m.zeros(self.segment_length, dtype=self.item_dtype))
 
         # Update the capacity of the Segmented Array
-- 
2.43.0


From 7a927cc11952dfedc67e7421219b6fd0c75fc69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:33 +0000
Subject: [PATCH 04/38] fix: the Python neutral mover leaves the move vector
 where boundary functions read it

advance_neutral_species() rebound its local 'dx' instead of filling self.dx, so
the reflecting boundary functions, which are given a reference to self.dx, used
a stale move vector.  The error messages also used an undefined fncName.
---
 Particle_Module.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index a00f317..88ac99d 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -1899,6 +1899,8 @@ class Particle_C(object):
 
         printInfoBoundaryCrossing = False
         
+        fncName = '('+__file__+') ' + self.__class__.__name__ + "." + sys._getframe().f_code.co_name + '():\n'
+
         # Set local names for the passed parameters
         dt = ctrl.dt
         step = ctrl.timeloop_count
@@ -2018,7 +2020,7 @@ class Particle_C(object):
                         coord0 = coord+'0'
                         pCoord2[i+pDim] = psegOut[ipOut][coord0] # Start of path in this cell
                         i+=1
-                    dx = pCoord2[0:pDim] - pCoord2[pDim:2*pDim] # Move vector
+                    dx[:] = pCoord2[0:pDim] - pCoord2[pDim:2*pDim] # Move vector (in self.dx, which the boundary functions use)
 
                     # could return the crossing-point in pCoord2[]
                     (cFacet, dxFraction, facetNormal) = pmesh_M.find_facet(pCoord2[pDim:2*pDim], dx, pCellIndex)
-- 
2.43.0


From 22488d8c3f455661c2c05c6989855fcf22f70b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:25 +0000
Subject: [PATCH 05/38] fix: C++ neutral xy mover passes the start position of
 the move to find_facet()

---
 cpp/advance_neutral_species_cartesian_xy.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/advance_neutral_species_cartesian_xy.cpp b/cpp/advance_neutral_species_cartesian_xy.cpp
index e3d9376..eac778b 100644
--- a/cpp/advance_neutral_species_cartesian_xy.cpp
+++ b/cpp/advance_neutral_species_cartesian_xy.cpp
@@ -181,11 +181,11 @@
                 pCoord2[0] = psegOut[ipOut].x_;
                 pCoord2[1] = psegOut[ipOut].y_;
                 // Starting particle position in this cell
-                pCoord2[3] = psegOut[ipOut].x0_;
-                pCoord2[4] = psegOut[ipOut].y0_;
+                pCoord2[pDim] = psegOut[ipOut].x0_;
+                pCoord2[pDim+1] = psegOut[ipOut].y0_;
                 // The move vector in this cell
-                dx[0] = pCoord2[0] - pCoord2[3];
-                dx[1] = pCoord2[1] - pCoord2[4];
+                dx[0] = pCoord2[0] - pCoord2[pDim];
+                dx[1] = pCoord2[1] - pCoord2[pDim+1];
 
                 // bool returnStdArray = true;
                 bool returnStdArray = false;
-- 
2.43.0


From d5254a599815bba8b01ee9cea2af9c1b544d4870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:57 +0000
Subject: [PATCH 06/38] fix: a species the solved field is not applied to moves
 in zero field, also when it is recorded at a boundary

---
 Particle_Module.py                              | 17 ++++++++---------
 ...e_charged_species_in_E_field_cartesian_x.cpp |  2 +-
 ..._charged_species_in_E_field_cartesian_xy.cpp |  2 +-
 ...e_charged_species_in_E_field_spherical_r.cpp |  2 +-
 4 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 88ac99d..c692ae1 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -1091,7 +1091,10 @@ class Particle_C(object):
 #                print("position:", psegIn['x'][0:npSeg], psegIn['y'][0:npSeg]) #, psegIn['z']
 #                print("velocity:", psegIn['ux'][0:npSeg], psegIn['uy'][0:npSeg]) #, psegIn['uz']
 
-                Eseg = None # This is for the case where no fields are to be applied to the particles,
+                # Start with a zero field, for the case where no solved field is to be
+                # applied to the particles of this species.
+                self.negE[0:npSeg] = self.zeroE[0:npSeg]
+                Eseg = self.negE[0:npSeg] # A ref, not a copy.
                 if neg_E_field is not None:
                     if ctrl.apply_solved_electric_field is None or ctrl.apply_solved_electric_field[sn] is True:
                         # Interpolate the solved electric field to the particle positions
@@ -1106,9 +1109,6 @@ class Particle_C(object):
                         # operation on each component of E.)
                         for n in Eseg.dtype.names:
                             Eseg[n] *= -1.0
-                else:
-                    self.negE[0:npSeg] = self.zeroE[0:npSeg]
-                    Eseg = self.negE[0:npSeg] # A ref, not a copy.
                 if external_E_field is not None:
                     if ctrl.apply_random_external_electric_field is None or ctrl.apply_random_external_electric_field[sn] is True:
                         # Interpolate the external electric field to the particle positions
@@ -1490,7 +1490,10 @@ class Particle_C(object):
             #                print("position:", psegIn['x'][0:npSeg], psegIn['y'][0:npSeg]) #, psegIn['z']
             #                print("velocity:", psegIn['ux'][0:npSeg], psegIn['uy'][0:npSeg]) #, psegIn['uz']
 
-            Eseg = None # This is for the case where no fields are to be applied to the particles,
+            # Start with a zero field, for the case where no solved field is to be
+            # applied to the particles of this species.
+            self.negE[0:npSeg] = self.zeroE[0:npSeg]
+            Eseg = self.negE[0:npSeg] # A ref, not a copy.
             if neg_E_field is not None:
                 if ctrl.apply_solved_electric_field is None or ctrl.apply_solved_electric_field[sn] is True:
                     # Interpolate the solved electric field to the particle positions
@@ -1505,10 +1508,6 @@ class Particle_C(object):
                     # operation on each component of E.)
                     for n in Eseg.dtype.names:
                         Eseg[n] *= -1.0
-            else:
-                self.negE[0:npSeg] = self.zeroE[0:npSeg]
-                Eseg = self.negE[0:npSeg] # A ref, not a copy.
-#                Eseg = self.zeroE[0:npSeg] # Is this the same as the 2 lines above?
             if external_E_field is not None:
                 if ctrl.apply_random_external_electric_field is None or ctrl.apply_random_external_electric_field[sn] is True:
                     # Interpolate the external electric field to the particle positions
diff --git a/cpp/advance_charged_species_in_E_field_cartesian_x.cpp b/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
index 4f95112..ba63353 100644
--- a/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
+++ b/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
@@ -176,7 +176,7 @@
 
     //std::cout << "Hello from advance_charged_species_in_E_field_cartesian_x@2" << std::endl;
     
-    py::array_t<double>* EsegPtr = nullptr;
+    py::array_t<double>* EsegPtr = &zeroE; // This is for the case where no solved field is to be applied to the particles.
     while (psegIn != nullptr) // Keep looping until we run out of "in" segments.
       {
         //std::cout << "Hello from advance_charged_species_in_E_field_cartesian_x@3" << std::endl;
diff --git a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
index 7439943..ff62e63 100644
--- a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
+++ b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
@@ -145,7 +145,7 @@
 
     //std::cout << "Hello from advance_charged_species_in_E_field_cartesian_xy@2" << std::endl;
     
-    py::array_t<double>* EsegPtr = nullptr;
+    py::array_t<double>* EsegPtr = &zeroE; // This is for the case where no solved field is to be applied to the particles.
     while (psegIn != nullptr) // Keep looping until we run out of "in" segments.
       {
 
diff --git a/cpp/advance_charged_species_in_E_field_spherical_r.cpp b/cpp/advance_charged_species_in_E_field_spherical_r.cpp
index 98b4d91..1502fea 100644
--- a/cpp/advance_charged_species_in_E_field_spherical_r.cpp
+++ b/cpp/advance_charged_species_in_E_field_spherical_r.cpp
@@ -179,7 +179,7 @@
 
     // Loop over the particles in this species
     
-    py::array_t<double>* EsegPtr = nullptr;
+    py::array_t<double>* EsegPtr = &zeroE; // This is for the case where no solved field is to be applied to the particles.
     while (psegIn != nullptr) // Keep looping until we run out of "in" segments.
       {
         //std::cout << "Hello from advance_charged_species_in_E_field_spherical_r@3" << std::endl;
-- 
2.43.0


From 0a6347f0fdcb0a204e42ab0ad3d0305d6305f9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:57 +0000
Subject: [PATCH 07/38] fix: C++ xy mover records both field components when a
 trajectory particle crosses a boundary

---
 cpp/advance_charged_species_in_E_field_cartesian_xy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
index ff62e63..e9cd755 100644
--- a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
+++ b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
@@ -365,13 +365,13 @@
                             auto EsegProxy = EsegPtr->mutable_unchecked<2>();
                             auto E_arrProxy = E1.mutable_unchecked<2>();
                             E_arrProxy(0, 0) = EsegProxy(ipIn, 0);
-                            // E_arrProxy(0, 1) = EsegProxy(ipIn, 1);
+                            E_arrProxy(0, 1) = EsegProxy(ipIn, 1);
                             // E_arrProxy(0, 2) = EsegProxy(ipIn, 2);
                             // External E
                             auto EextProxy = Eext.mutable_unchecked<2>();
                             auto Eext_arrProxy = Eext1.mutable_unchecked<2>();
                             Eext_arrProxy(0, 0) = EextProxy(ipIn, 0);
-                            // Eext_arrProxy(0, 1) = EextProxy(ipIn, 1);
+                            Eext_arrProxy(0, 1) = EextProxy(ipIn, 1);
                             // Eext_arrProxy(0, 2) = EextProxy(ipIn, 2);
                             //end
                             // Record the data for the trajectory
-- 
2.43.0


From d4f36a230901bc7c31d43806c195df670e7f21cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:06 +0000
Subject: [PATCH 08/38] fix: C++ neutral movers end the trajectory of a
 particle that was marked for deletion

---
 cpp/advance_neutral_species_cartesian_xy.cpp  | 24 ++++++++++++-------
 cpp/advance_neutral_species_cartesian_xyz.cpp | 24 ++++++++++++-------
 2 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/cpp/advance_neutral_species_cartesian_xy.cpp b/cpp/advance_neutral_species_cartesian_xy.cpp
index eac778b..16eef3b 100644
--- a/cpp/advance_neutral_species_cartesian_xy.cpp
+++ b/cpp/advance_neutral_species_cartesian_xy.cpp
@@ -97,14 +97,6 @@
       {
         for (auto ipIn = 0; ipIn < npSeg; ipIn++)
           {
-            // Skip deleted particles
-            if ((psegIn[ipIn].bitflags_ & Pstruct<Ptype::cartesian_xy>::DELETE_FLAG) != 0b0)
-              {
-                indexChange = true; // Particle SA indices are stale past this point
-                                    // due to deletions.
-                continue; // skip to the next particle in the "in" segment.
-              }
-
             // If this "out" segment is full, get the next "out" segment, since
             // there are still some "in" particles to advance.  If there are no more
             // "out" segments, allocate a new one.
@@ -130,6 +122,22 @@
             psegOut[ipOut] = psegIn[ipIn]; // Copy all of this particle's data from the
                                            // input slot to the output slot
 
+            // Skip deleted particles
+            if ((psegIn[ipIn].bitflags_ & Pstruct<Ptype::cartesian_xy>::DELETE_FLAG) != 0b0)
+              {
+                indexChange = true; // Particle SA indices are stale past this point
+                                    // due to deletions.
+                // If this was a trajectory particle, remove it's index from the trajectory-particle list.
+                if (!traj_T.is_none())
+                  {
+                    if ((psegIn[ipIn].bitflags_ & Pstruct<Ptype::cartesian_xy>::TRAJECTORY_FLAG) != 0b0)
+                      {
+                        particle_P.attr("remove_trajectory_particleId")(species_name, ipIn, ipOut, step, time, dt);
+                      }
+                  }
+                continue; // skip to the next particle in the "in" segment.
+              }
+
             // Move the neutral particle
             // 1. Save the initial position
             psegOut[ipOut].x0_ = psegOut[ipOut].x_;
diff --git a/cpp/advance_neutral_species_cartesian_xyz.cpp b/cpp/advance_neutral_species_cartesian_xyz.cpp
index 3d07fdc..326d8ac 100644
--- a/cpp/advance_neutral_species_cartesian_xyz.cpp
+++ b/cpp/advance_neutral_species_cartesian_xyz.cpp
@@ -113,14 +113,6 @@
       {
         for (auto ipIn = 0; ipIn < npSeg; ipIn++)
           {
-            // Skip deleted particles
-            if ((psegIn[ipIn].bitflags_ & Pstruct<Ptype::cartesian_xyz>::DELETE_FLAG) != 0b0)
-              {
-                indexChange = true; // Particle SA indices are stale past this point
-                                    // due to deletions.
-                continue; // skip to the next particle in the "in" segment.
-              }
-
             // If this "out" segment is full, get the next "out" segment, since
             // there are still some "in" particles to advance.  If there are no more
             // "out" segments, allocate a new one.
@@ -146,6 +138,22 @@
             psegOut[ipOut] = psegIn[ipIn]; // Copy all of this particle's data from the
                                            // input slot to the output slot
 
+            // Skip deleted particles
+            if ((psegIn[ipIn].bitflags_ & Pstruct<Ptype::cartesian_xyz>::DELETE_FLAG) != 0b0)
+              {
+                indexChange = true; // Particle SA indices are stale past this point
+                                    // due to deletions.
+                // If this was a trajectory particle, remove it's index from the trajectory-particle list.
+                if (!traj_T.is_none())
+                  {
+                    if ((psegIn[ipIn].bitflags_ & Pstruct<Ptype::cartesian_xyz>::TRAJECTORY_FLAG) != 0b0)
+                      {
+                        particle_P.attr("remove_trajectory_particleId")(species_name, ipIn, ipOut, step, time, dt);
+                      }
+                  }
+                continue; // skip to the next particle in the "in" segment.
+              }
+
             // Move the neutral particle
             // 1. Save the initial position
             psegOut[ipOut].x0_ = psegOut[ipOut].x_;
-- 
2.43.0


From e1b7032bf82e8d13ffa06d1ecee4cb8dd0d1e139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:27 +0000
Subject: [PATCH 09/38] fix: record_trajectory_data() skips only the trajectory
 that is full, also for neutral species

---
 Particle_Module.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index c692ae1..0422a6b 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -2764,7 +2764,7 @@ class Particle_C(object):
                 if newpoint > traj_T.npoints - 1:
                     if printWarningArraySize is True:
                         print("%s\tDnT WARNING: Index %d for species %s on step %d exceeds array size %d. Point will not be recorded." % (fncName, newpoint, sp, step, traj_T.npoints))
-                    return
+                    continue # Only this trajectory is full.
                 
                 for comp in traj_T.charged_dict['names']:
 #                    print 'comp = ', comp
@@ -2801,6 +2801,11 @@ class Particle_C(object):
 
                 # Copy the particle values into the trajectory
                 newpoint = traj_T.trajectory_length[sp][i]
+                if newpoint > traj_T.npoints - 1:
+                    if printWarningArraySize is True:
+                        print("%s\tDnT WARNING: Index %d for species %s on step %d exceeds array size %d. Point will not be recorded." % (fncName, newpoint, sp, step, traj_T.npoints))
+                    continue # Only this trajectory is full.
+
                 for comp in traj_T.neutral_dict['names']:
                     if comp == 'step':
                         traj_T.data_list[sp][i][comp][newpoint] = step
-- 
2.43.0


From cd1b033943d669894617992a71d484e90678eb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:51 +0000
Subject: [PATCH 10/38] fix: interpolate_random_field_to_points() also works
 for fields with more than one component

---
 Dolfin_Module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 1dfcf4d..c2351cb 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1196,7 +1196,8 @@ class Field_C(object):
             if np_m.linalg.norm(fieldValue) != 0.0:
                 randomVals[0] = np_m.random.normal(0.0, stdDeviation, numberOfValues)
                 fieldValue *= randomVals[0]
-            field_at_points[ip] = fieldValue
+            for d in range(len(fieldValue)):
+                field_at_points[ip][d] = fieldValue[d]
 #        print 'field_at_points = ', field_at_points[0:points.shape[0]]
         return
 #    def interpolate_random_field_to_points(self, points, field_at_points):ENDDEF
-- 
2.43.0


From e98db84e5ef848236b94b9fdb5c7ebdc76867960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:51 +0000
Subject: [PATCH 11/38] fix: move_particles_in_electrostatic_field() can record
 a trajectory particle crossing a boundary

---
 Particle_Module.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 0422a6b..4ce1393 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -1095,6 +1095,7 @@ class Particle_C(object):
                 # applied to the particles of this species.
                 self.negE[0:npSeg] = self.zeroE[0:npSeg]
                 Eseg = self.negE[0:npSeg] # A ref, not a copy.
+                Eext_seg = self.zeroE[0:npSeg]
                 if neg_E_field is not None:
                     if ctrl.apply_solved_electric_field is None or ctrl.apply_solved_electric_field[sn] is True:
                         # Interpolate the solved electric field to the particle positions
@@ -1299,10 +1300,15 @@ class Particle_C(object):
                                     # Get the storage index that currently identifies this
                                     # particle in the trajectory list.
                                     fullIndex = sap.get_full_index(ipIn, "in")
-# Why is the None here for E? Because a particle may have gone out-of-bounds?  In that case, could compute E at initial coords instead of final coords.
-
-# Can I just send the interpolated E-field value?
-                                    self.record_trajectory_datum(sn, ipOut, fullIndex, step, tStart, neg_E_field=None, external_E_field=None, facet_crossing=True)
+                                    # Copy the field components at the start of the move to
+                                    # homogeneous arrays.
+                                    E1Comps = self.E1_comps
+                                    for i in range(len(self.negE1.dtype.names)):
+                                        E1Comps[0][i] = Eseg[ipIn][i]
+                                    Eext1Comps = self.Eext1_comps
+                                    for i in range(len(self.Eext1.dtype.names)):
+                                        Eext1Comps[0][i] = Eext_seg[ipIn][i]
+                                    self.record_trajectory_datum(sn, ipOut, fullIndex, step, tStart, E_field_comps=E1Comps, external_E_field_comps=Eext1Comps, facet_crossing=True)
                                 self.pmesh_bcs.bc_function_dict[facValue][sn](psegOut[ipOut], sn, mFacet, dx_fraction=dxFraction, facet_normal=facetNormal)
 
                             # Look up the cell index of the new cell.
-- 
2.43.0


From 0cdbb17bf811cb51c56f00fb339e6880483a447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:41 +0000
Subject: [PATCH 12/38] fix: advance_charged_species_in_E_field() records zero
 external field for a species it is not applied to

---
 Particle_Module.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Particle_Module.py b/Particle_Module.py
index 4ce1393..730be5e 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -1500,6 +1500,7 @@ class Particle_C(object):
             # applied to the particles of this species.
             self.negE[0:npSeg] = self.zeroE[0:npSeg]
             Eseg = self.negE[0:npSeg] # A ref, not a copy.
+            Eext_seg = self.zeroE[0:npSeg] # Likewise for the external field.
             if neg_E_field is not None:
                 if ctrl.apply_solved_electric_field is None or ctrl.apply_solved_electric_field[sn] is True:
                     # Interpolate the solved electric field to the particle positions
-- 
2.43.0


From a9eece5ed22852afafe4b7445831d3bf6f32c324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:25 +0000
Subject: [PATCH 13/38] fix: C++ uniform-fields mover accepts a species without
 particles

---
 ...advance_charged_species_in_uniform_fields_cartesian_xyz.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/advance_charged_species_in_uniform_fields_cartesian_xyz.cpp b/cpp/advance_charged_species_in_uniform_fields_cartesian_xyz.cpp
index deb9ac2..f4cc2e4 100644
--- a/cpp/advance_charged_species_in_uniform_fields_cartesian_xyz.cpp
+++ b/cpp/advance_charged_species_in_uniform_fields_cartesian_xyz.cpp
@@ -43,6 +43,9 @@
     // auto sap = sap_map[std::string(species_name)];
     auto sap = particle_P.attr("sap_dict")[species_name].cast<SegmentedArrayPair<Ptype::cartesian_xyz> *>();
     
+    // Nothing to do if there are no particles (init_inout_loop() returns no data pointers then).
+    if (sap->get_number_of_items() == 0) return;
+
     const py::ssize_t segmentLength = sap->get_segment_length();
     
     // Start a loop over the sap segments. segTuple contains (npSeg, psegIn, psegOut)
-- 
2.43.0


From c1eb6ddc91bb5c2c14452e4924ddb95b0f03e468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:25 +0000
Subject: [PATCH 14/38] fix: Python uniform-fields mover counts the particles
 of a full last segment once

---
 Particle_Module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 730be5e..d91bfdc 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -2290,7 +2290,8 @@ class Particle_C(object):
             (npSeg, psegIn) = sap.get_next_segment("in")
 
         # Set values that will be used to keep track of the particle arrays
-        particleCount += ipOut
+        if ipOut != self.SEGMENT_LENGTH: # Otherwise, these particles have been counted already.
+            particleCount += ipOut
         sap.set_number_of_items("out", particleCount)
 
         return
-- 
2.43.0


From ab6252536833617634d0abeb12b7ed0c9db43b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:36 +0000
Subject: [PATCH 15/38] fix: History_C can limit the number of points

---
 RecordedData_Module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RecordedData_Module.py b/RecordedData_Module.py
index 02ce0c6..d52048c 100644
--- a/RecordedData_Module.py
+++ b/RecordedData_Module.py
@@ -124,7 +124,7 @@ class History_C(object):
         if histin.max_points is None:
             self.skip = 1
         else:
-            self.skip = int(ctrl.n_timesteps/max_points + 1)
+            self.skip = int(ctrl.n_timesteps/histin.max_points + 1)
 
         # Length of history-data arrays
         self.npoints = int(ctrl.n_timesteps/self.skip + 1)
-- 
2.43.0


From d91e55e3a590c23d1a13972014f974682b403a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:49 +0000
Subject: [PATCH 16/38] fix: get_species_number() and get_species_KE() sum only
 the stored particles of a C++ segment

---
 Particle_Module.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index d91bfdc..611d35b 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -737,7 +737,8 @@ class Particle_C(object):
         # Loop over the particle "out" segments
         (npSeg, pseg) = sap.init_out_loop()
         while isinstance(pseg, np_m.ndarray):
-            species_number += np_m.sum(pseg['weight'])
+            # Only the first npSeg items of the segment are particles
+            species_number += np_m.sum(pseg['weight'][0:npSeg])
             (npSeg, pseg) = sap.get_next_segment("out")
 
         if printSpeciesNumberFlag:
@@ -797,9 +798,9 @@ class Particle_C(object):
         # Loop over the particle "out" segments
         (npSeg, pseg) = sap.init_out_loop()
         while isinstance(pseg, np_m.ndarray):
-            # Sum of 0.5*m*u^2 for particles in this segment
+            # Sum of 0.5*m*u^2 for particles in this segment (the first npSeg items)
             for ucomp in self.velocity_coordinates:
-                species_KE += np_m.sum(pseg['weight']*pseg[ucomp]**2)
+                species_KE += np_m.sum(pseg['weight'][0:npSeg]*pseg[ucomp][0:npSeg]**2)
             
             (npSeg, pseg) = sap.get_next_segment("out")
 
-- 
2.43.0


From 19723a55ccaff04f094ca60e8e129ed77151e4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:41 +0000
Subject: [PATCH 17/38] fix: write_particles_to_file() can be repeated after a
 call that failed

---
 Particle_Module.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 611d35b..f9a31a6 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -3189,6 +3189,9 @@ class Particle_C(object):
 
         # Create a new group for this timestep
         groupName = "Step#" + str(self.h5_step_counter)
+        # If an earlier attempt to write this group failed part-way, start it again
+        if groupName in self.particle_output_handle:
+            del self.particle_output_handle[groupName]
         group = self.particle_output_handle.create_group(groupName)
 
         # Write the simulation time
@@ -3258,14 +3261,16 @@ class Particle_C(object):
 #                    group.create_dataset(pA, data=h5Buf[:])
 #                    d2 = group.create_dataset("y",data=y[:], dtype='f')
 
+        # Flush the output buffer
+        self.particle_output_handle.flush()
+
+        # The snapshot is complete: record that only now, so that a call that failed can be
+        # repeated
         self.h5_step_counter += 1
 
         # Record the current simulation step before returning
         self.h5_last_write_step = step
 
-        # Flush the output buffer
-        self.particle_output_handle.flush()
-
         if close_flag is True:
             self.particle_output_handle.close()
 
-- 
2.43.0


From 61d9dceec9bf867fae1cd7a8770fb205b47c198e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:54 +0000
Subject: [PATCH 18/38] fix: write_particles_to_file(close_flag=True) closes
 the file when this step has been written already

---
 Particle_Module.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Particle_Module.py b/Particle_Module.py
index f9a31a6..c8a380e 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -3185,6 +3185,8 @@ class Particle_C(object):
         step = ctrl.timeloop_count
         if step == self.h5_last_write_step:
             if printInfoSecondCall is True: print(fncName, "\t\"Second call on timestep %d: return without rewriting the data!\"" % step)
+            if close_flag is True:
+                self.particle_output_handle.close()
             return
 
         # Create a new group for this timestep
-- 
2.43.0


From f7f5d668d0f170729e50ce323bfcbd7842f6b048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:08 +0000
Subject: [PATCH 19/38] fix: record the length of the particle output buffer
 only once it has been allocated

---
 Particle_Module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index c8a380e..51e1029 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -3207,8 +3207,8 @@ class Particle_C(object):
             newNumSegs = int(1 + totalParticleCount/self.SEGMENT_LENGTH)
 #            print "newNumSegs =", newNumSegs Allocate a new buffer that's large enough to
             # hold 1 64-bit attribute for ALL the particles
+            self.h5_buffer = np_m.empty(newNumSegs*self.SEGMENT_LENGTH, dtype=np_m.float64)
             self.h5_buffer_length = newNumSegs*self.SEGMENT_LENGTH
-            self.h5_buffer = np_m.empty(self.h5_buffer_length, dtype=np_m.float64)
         h5Buf = self.h5_buffer
 
         ### Loop on the particle attributes to be written out
-- 
2.43.0


From 62995b130e63673625e66a6ef163c9032bb1f577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:21 +0000
Subject: [PATCH 20/38] fix: the first snapshot of a new particle output file
 is written even if this step went to another file

---
 Particle_Module.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Particle_Module.py b/Particle_Module.py
index 51e1029..5db5a0f 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -3155,6 +3155,8 @@ class Particle_C(object):
             h5File.attrs[key] = self.charge[s]
 
         self.h5_step_counter = 0
+        # Nothing has been written to this file yet
+        self.h5_last_write_step = -1
 
         # Flush the buffer
         self.particle_output_handle.flush()
-- 
2.43.0


From 208287e2471662e427d601fd41c9ef94ebdb17ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:40 +0000
Subject: [PATCH 21/38] fix: initialize_particles() calls the creation function
 with the step, as add_more_particles() does

---
 Particle_Module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 5db5a0f..8de4c03 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -483,8 +483,9 @@ class Particle_C(object):
                 ipFunc = ipTuple[1]
                 ipRegion = ipTuple[2]
                 # Invoke the creation function
+                step = 0
                 time = 0.0
-                ipFunc(time, ipRegion, ipParams, neg_E_field)
+                ipFunc(step, time, ipRegion, ipParams, neg_E_field)
             else:
                 errorMsg = fncName + "\t\"Unknown initial_distribution_type %s for species %s!\"" % (initial_distribution_type, s)
                 raise RuntimeError(errorMsg) # sys.exit(errorMsg)
-- 
2.43.0


From 2fc77ff1811a3a3e9db763b2fa19907fe7494012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:52 +0000
Subject: [PATCH 22/38] fix: initialize_particles() reports an unknown
 initial_distribution_type

---
 Particle_Module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 8de4c03..85f425c 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -487,7 +487,7 @@ class Particle_C(object):
                 time = 0.0
                 ipFunc(step, time, ipRegion, ipParams, neg_E_field)
             else:
-                errorMsg = fncName + "\t\"Unknown initial_distribution_type %s for species %s!\"" % (initial_distribution_type, s)
+                errorMsg = fncName + "\t\"Unknown initial_distribution_type %s for species %s!\"" % (initialDistributionType, s)
                 raise RuntimeError(errorMsg) # sys.exit(errorMsg)
 
         # for sp in self.species_names:
-- 
2.43.0


From 54c1c51f5d78b2c6bfc526fc26b56b652ea643e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:01 +0000
Subject: [PATCH 23/38] fix: create_trajectory() extends its lists only once
 the storage for the points is allocated

---
 RecordedData_Module.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/RecordedData_Module.py b/RecordedData_Module.py
index d52048c..fab852d 100644
--- a/RecordedData_Module.py
+++ b/RecordedData_Module.py
@@ -429,6 +429,18 @@ class Trajectory_C(object):
 
         fncName = '('+__file__+') ' + self.__class__.__name__ + "." + sys._getframe().f_code.co_name + '():\n'
 
+        # Allocate a numpy array for this particles's trajectory data. This comes before
+        # the lists below are extended, so that they stay consistent if it fails.
+        if dynamics_type == 'charged':
+            data = np_m.empty(self.npoints, dtype=self.charged_dict)
+#        elif dynamics_type == 'implicit':
+#            data = np_m.empty(self.npoints, dtype=self.implicit_dict)
+        elif dynamics_type == 'neutral':
+            data = np_m.empty(self.npoints, dtype=self.neutral_dict)
+        else:
+            errorMsg = "%s\t\"dynamics_type %s is unknown for species %s. Set it to 'charged' or 'neutral'!\"" % (fncName, dynamics_type, species_name)
+            raise RuntimeError(errorMsg)
+
         # Add the particle's index to the list of marked particles for this species.
         self.particle_index_list[species_name].append(pindex)
         self.particle_unique_id_list[species_name].append(unique_id_int)
@@ -438,16 +450,8 @@ class Trajectory_C(object):
         self.trajectory_length[species_name].append(0) # Set the trajectory point-count for this
                                                       # particle to 0
 
-        # Add a numpy array for this particles's trajectory data
-        if dynamics_type == 'charged':
-            self.data_list[species_name].append(np_m.empty(self.npoints, dtype=self.charged_dict))
-#        elif dynamics_type == 'implicit':
-#            self.data_list[species_name].append(np_m.empty(self.npoints, dtype=self.implicit_dict))
-        elif dynamics_type == 'neutral':
-            self.data_list[species_name].append(np_m.empty(self.npoints, dtype=self.neutral_dict))
-        else:
-            errorMsg = "%s\t\"dynamics_type %s is unknown for species %s. Set it to 'charged' or 'neutral'!\"" % (fncName, dynamics_type, species_name)
-            raise RuntimeError(errorMsg)
+        # Add the numpy array for this particles's trajectory data
+        self.data_list[species_name].append(data)
 
         return
 #    def create_trajectory(self, species_name, dynamics_type):ENDDEF
-- 
2.43.0


From 8cff9af175edc80492afcedcc36528f7fa81632a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:52 +0000
Subject: [PATCH 24/38] fix: the box that new particles are drawn from covers
 the whole cell

---
 Dolfin_Module.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index c2351cb..1e35e56 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1837,7 +1837,9 @@ class CellSet_C(object):
             midp = c.midpoint()
             for i in range(self.gdim):
                 self.midpoint[icell][i] = midp[i]
-            self.radius[icell] = c.circumradius()
+            # The distance from the midpoint to the farthest vertex (the circumscribed
+            # sphere has a different center, so it may leave out a part of the cell).
+            self.radius[icell] = max(midp.distance(v.point()) for v in df_m.vertices(c))
             
         return
 #    def __init__(self, mesh, plot_flag=False):ENDDEF
-- 
2.43.0


From c43b6d578029f095ea50ecd06a1a88b8931a2812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:52 +0000
Subject: [PATCH 25/38] fix: assemble_source_expression() accepts a string
 expression

---
 Dolfin_Module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 1e35e56..a0a2fa3 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1603,7 +1603,7 @@ class PoissonSolve_C(object):
         if source_density is None:
             source_expression = df_m.Constant(0.0)
         elif isinstance(source_density, str):
-            source_expression = df_m.Expression(source_density)
+            source_expression = df_m.Expression(source_density, element=self.V.ufl_element())
         elif isinstance(source_density, float):
             source_expression = df_m.Constant(source_density)
         elif isinstance(source_density, int):
-- 
2.43.0


From 383895e8785f61154301722cbc8430f8b564b84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:20 +0000
Subject: [PATCH 26/38] fix: solve_for_phi() leaves the charge density it is
 given unchanged

---
 Dolfin_Module.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index a0a2fa3..7bdd6d8 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1681,10 +1681,10 @@ class PoissonSolve_C(object):
         # Charge sources (e.g., from delta-function kinetic particles) that are
         # already in the format needed to be added directly to the source-term b.
         if assembled_charge is not None:
-            # Apply a spacecharge multiplier
-            if assembled_charge_factor is not None:
-                assembled_charge.function_values[:] *= assembled_charge_factor
             self.b[:] = assembled_charge.function_values
+            # Apply a spacecharge multiplier (to the copy: the caller's charge is unchanged)
+            if assembled_charge_factor is not None:
+                self.b[:] *= assembled_charge_factor
             
             # Apply the boundary conditions
             for bc in self.bcs:
-- 
2.43.0


From 88ff7c0cdd82305aab2789f3cc5cb8d2e7515647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:20 +0000
Subject: [PATCH 27/38] fix: compute_negE() stores the field in the function
 that function_values refers to

---
 Dolfin_Module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 7bdd6d8..775b9c4 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1735,7 +1735,8 @@ class PoissonSolve_C(object):
         negE = df_m.grad(self.u)
 
         function_space = self.neg_electric_field.function_space
-        self.neg_electric_field.function = df_m.project(negE, function_space)
+        # Store the result in the existing function, which function_values refers to
+        df_m.project(negE, function_space, function=self.neg_electric_field.function)
         if plot_flag is True:
             df_m.plot(self.neg_electric_field.function, title=plot_title+": -E")
             mplot_m.show()
-- 
2.43.0


From afc47608b6885ca3074448a0e540b251d30fee6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:15 +0000
Subject: [PATCH 28/38] fix: assemble_source_expression() includes the volume
 element of spherical coordinates

---
 Dolfin_Module.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 775b9c4..d3b3939 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1481,6 +1481,8 @@ class PoissonSolve_C(object):
 
         # The finite-element function space
         self.V = phi_F.function_space
+        # Needed for the volume element in assemble_source_expression()
+        self.coordinate_system = phi_F.mesh_M.coordinate_system
         # A dolfin Function
         self.u = phi_F.function
         # A dolfin Argument
@@ -1620,6 +1622,10 @@ class PoissonSolve_C(object):
         # needed to integrate over the domain).
             
         L = source_expression*self.v*df_m.dx
+        if self.coordinate_system == '1D-spherical-radial':
+            # The factor 4 pi is dropped on both sides of the equation
+            r = df_m.SpatialCoordinate(self.V.mesh())
+            L = source_expression*self.v*r[0]**2*df_m.dx
 #        self.b = df_m.assemble(L)
         self.b[:] = df_m.assemble(L) # b is reused
 
-- 
2.43.0


From f78f8e99d13df2210665e309026ddcc5cc466785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:52 +0000
Subject: [PATCH 29/38] fix: compute the volume of a spherical cell whose
 vertices are not in radius order as positive

---
 Dolfin_Module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index d3b3939..4e748c7 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -521,7 +521,8 @@ class Mesh_C(object):
                 coords = cell.get_vertex_coordinates()
                 x0 = coords[0]
                 x1 = coords[1]
-                volume = (4.0/3.0)*np_m.pi*(x1*x1*x1 - x0*x0*x0)
+                # The vertices are not always in the order of increasing radius
+                volume = (4.0/3.0)*np_m.pi*abs(x1*x1*x1 - x0*x0*x0)
                 self.cell_volume_dict[ci] = volume
 #                print("cell", ci, "volume", volume)                
         else:
-- 
2.43.0


From 756c7e1e9a0a6fc4a5ed461392c3d08c0096d672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:52 +0000
Subject: [PATCH 30/38] fix: compare field_type by value in Field_C

---
 Dolfin_Module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 4e748c7..d2db934 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -919,9 +919,9 @@ class Field_C(object):
         self.mesh_gdim = mesh_M.mesh.geometry().dim()
         self.mesh_tdim = mesh_M.mesh.topology().dim()
 
-        if field_type is 'scalar':
+        if field_type == 'scalar':
             self.function_space = df_m.FunctionSpace(self.mesh_M.mesh, element_type, element_degree)
-        elif field_type is 'vector':
+        elif field_type == 'vector':
             self.function_space = df_m.VectorFunctionSpace(self.mesh_M.mesh, element_type, element_degree)
         self.field_type = field_type
 
-- 
2.43.0


From 3dbfb225f0922b58a26a84ec472d29c56a206668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:52 +0000
Subject: [PATCH 31/38] fix: multiply_values() on a subdomain multiplies each
 DOF once and honours gaussian

---
 Dolfin_Module.py | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index d2db934..c0a85dc 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1019,25 +1019,15 @@ class Field_C(object):
             else:
                 self.function_values[:] *= multiplier
         else:
-            numberOfValues = subdomain.ncell
-
-# TODO: this isn't finished. For a CellSet, need to figure out how to apply a multiplier
-# to the DOFs, if DOFs can be associated with more than one cell (e.g., a vertex).  In
-# that case, you cannot loop on cells because the same DOFs will get multiplied more than
-# once. Use a Python "set" i.e. a set of unique objects.
-            for icell in range(subdomain.ncell):
-                cellIndex = subdomain.cell_index[icell]
-
-# !!! Doesn't this multiply vertices twice, since vertices are shared between cells?
-
-# It works if the DOFs are cell values (e.g., the E-field), and not vertex values (e.g., the density)
-
-# It'd be better to get a list of the DOFs and not loop over cells. Use a Python set().
-# 
-
-                dofIndices = self.function_space.dofmap().cell_dofs(cellIndex) # return type: numpy.ndarray
+            # A DOF on the border between cells belongs to more than one of them, so get the
+            # set of unique DOFs: each one is multiplied once.
+            dofmap = self.function_space.dofmap()
+            dofIndices = np_m.unique([dof for cellIndex in subdomain.cell_index for dof in dofmap.cell_dofs(cellIndex)])
+            if gaussian is True:
+                self.function_values[dofIndices] *= np_m.random.normal(0.0, multiplier, len(dofIndices))
+            else:
                 self.function_values[dofIndices] *= multiplier
-            
+
         return
 #    def multiply_values(self, multiplier, gaussian=False, subdomain=None):
 
-- 
2.43.0


From 197ada521d2046641311a6457d8c1463765129a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:52 +0000
Subject: [PATCH 32/38] fix: set_gaussian_values() on a subdomain with more
 cells than DOFs

---
 Dolfin_Module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index c0a85dc..9e8ecce 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1054,8 +1054,8 @@ class Field_C(object):
         else:
             self.function_values[:] = 0.0 # Initialize all the elements to zero.
             numberOfValues = subdomain.ncell
-            randomVals = self.scratch_array # Alias to a numpy scratch array
-            randomVals[0:numberOfValues] = np_m.random.normal(0.0, standard_deviation, numberOfValues)
+            # There can be more cells than DOFs, so the scratch array may be too short for these
+            randomVals = np_m.random.normal(0.0, standard_deviation, numberOfValues)
 
 # Replace cell-loop with a loop over unique DoFs. It's OK as-is for the E-field, which is a cell quantity.
             
-- 
2.43.0


From 1169f6d158f74a9b05d89c1df6b5ea510d854389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:01 +0000
Subject: [PATCH 33/38] fix: compute_cell_index() returns NO_CELL for a point
 outside of the mesh

---
 Dolfin_Module.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 9e8ecce..c8e51c1 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -463,12 +463,11 @@ class Mesh_C(object):
         fncName = sys._getframe().f_code.co_name + '():'
 #        print fncName, "cell index =", first
 
-        # The maximum value of a 32-bit int is 0xFFFFFFFF (-1)
-        # (eight Fs and F = 1111)
-#        if first == 0xFFFFFFFF:
-        if first == Mesh_C.NO_CELL:
-            print(fncName, ": particle is out of bounds")
-            sys.exit()
+        # If there's no collision, Dolfin returns the maximum value of an unsigned 32-bit
+        # int: 0xFFFFFFFF (eight Fs and F = 1111)
+        if first == 0xFFFFFFFF:
+            print(fncName, ": point is out of bounds")
+            return Mesh_C.NO_CELL
 
         return first
 #    def compute_cell_index(self, point):ENDDEF
-- 
2.43.0


From 591bc17c7b709e1b6ef0613558d9bbc1eab875e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:01 +0000
Subject: [PATCH 34/38] fix: UserMesh1DS_C keeps the boundary markers it reads
 from files

---
 UserMesh_y_Fields_Spherical1D_Module.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/UserMesh_y_Fields_Spherical1D_Module.py b/UserMesh_y_Fields_Spherical1D_Module.py
index ca577aa..310510a 100644
--- a/UserMesh_y_Fields_Spherical1D_Module.py
+++ b/UserMesh_y_Fields_Spherical1D_Module.py
@@ -187,10 +187,9 @@ class UserMesh1DS_C(Mesh_C):
         fieldBoundaryFile = mesh_input.field_boundary_file
         particleBoundaryFile = mesh_input.particle_boundary_file
         if fieldBoundaryFile is not None:
-            fieldBoundaryMarker = df_m.MeshFunctionSizet(self.mesh, fieldBoundaryFile)
+            self.field_boundary_marker = df_m.MeshFunction("size_t", self.mesh, fieldBoundaryFile)
         if particleBoundaryFile is not None:
-            particleBoundaryMarker = df_m.MeshFunctionSizet(self.mesh, particleBoundaryFile)
-# or:       particleBoundaryMarker = df_m.MeshFunctionSizet(self.mesh, "Pbcs_quarter_circle_mesh_crossed.xml")
+            self.particle_boundary_marker = df_m.MeshFunction("size_t", self.mesh, particleBoundaryFile)
 
         return
 #    def __init__(self, mesh_input, compute_dictionaries=False, compute_cpp_arrays=False, compute_tree=False, plot_flag=False, plot_title=None):ENDDEF
-- 
2.43.0


From 513f629c655ba3e5c2e7be7fde6103d583a508af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:09 +0000
Subject: [PATCH 35/38] fix: a C++ segment is counted only once it has been
 allocated

---
 cpp/SegmentedArrayPair.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/SegmentedArrayPair.h b/cpp/SegmentedArrayPair.h
index 66c4781..4a1f6d3 100644
--- a/cpp/SegmentedArrayPair.h
+++ b/cpp/SegmentedArrayPair.h
@@ -118,10 +118,11 @@ namespace dnt
     */
     void add_segment(unsigned theSA)
     {
-      nseg[theSA] += 1;
       // No pointer is passed, so Numpy will allocate the buffer
       py::array_t<Pstruct<PT>, 0> newSegment = py::array_t<Pstruct<PT>, 0>(segment_length);
       seg_list_pair[theSA].push_back(newSegment);
+      // The segment is counted once it's there: the allocation can fail
+      nseg[theSA] += 1;
 
       first_not_full_segment[theSA] += 1;
       first_available_offset[theSA] = 0;
-- 
2.43.0


From b283b39dc1affc3792b8c7d893df3678e2e031a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:19 +0000
Subject: [PATCH 36/38] fix: history plots show the recorded rows only

---
 RecordedData_Module.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/RecordedData_Module.py b/RecordedData_Module.py
index fab852d..f3b66d4 100644
--- a/RecordedData_Module.py
+++ b/RecordedData_Module.py
@@ -225,12 +225,13 @@ class ParticleHistory_C(History_C):
 
         # Loop on the histories
 
-        tvals = self.data_array['t']
-        nlength = self.npoints
+        # Only the rows recorded so far hold data
+        nlength = self.counter
+        tvals = self.data_array['t'][0:nlength]
 
         # Plot 'step' vs. 't' for information
 
-        yarray = self.data_array['step']
+        yarray = self.data_array['step'][0:nlength]
 
         plot_title = "timestep_number_vs._time"
         x_label = "time (s)"
@@ -249,7 +250,7 @@ class ParticleHistory_C(History_C):
         # Plot the requested histories, both total and for each species
         for hist in self.scalar_histories + self.species_scalar_histories:
 
-            yarray = self.data_array[hist]
+            yarray = self.data_array[hist][0:nlength]
 
             plot_title = "%s_vs._time" % (hist)
             x_label = "time (s)"
-- 
2.43.0


From 09b4ca903bfb10adc4b36a5fdc9e410d0e4fc343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:19 +0000
Subject: [PATCH 37/38] fix: phase-space plots of trajectories are shown before
 they are closed

---
 RecordedData_Module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RecordedData_Module.py b/RecordedData_Module.py
index f3b66d4..5482f21 100644
--- a/RecordedData_Module.py
+++ b/RecordedData_Module.py
@@ -525,8 +525,8 @@ class Trajectory_C(object):
                             mplot_m.ylabel('y')
                             mplot_m.grid(True)
                             # mplot_m.savefig(plot_title + ".png")
+                            mplot_m.show()
                             mplot_m.close(fig)
-                            # mplot_m.show()
                         if 'ux' in comps:
                             fig = mplot_m.figure()
                             mplot_m.plot(data_arr['x'][0:nlength], data_arr['ux'][0:nlength], marker="o")
@@ -535,8 +535,8 @@ class Trajectory_C(object):
                             mplot_m.ylabel('ux')
                             mplot_m.grid(True)
                             # mplot_m.savefig(plot_title + ".png")
+                            mplot_m.show()
                             mplot_m.close(fig)
-                            # mplot_m.show()
                 
                 mplot_m.show()
         return
-- 
2.43.0


From b62229d949b9037b0f5ef08bb563ecbefb521c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:14 +0000
Subject: [PATCH 38/38] fix: particle boundaries of 1-D and 3-D Cartesian
 meshes are marked

---
 UserMesh_y_Fields_FE_XYZ_Module.py | 31 ++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/UserMesh_y_Fields_FE_XYZ_Module.py b/UserMesh_y_Fields_FE_XYZ_Module.py
index 78a4911..ff14900 100644
--- a/UserMesh_y_Fields_FE_XYZ_Module.py
+++ b/UserMesh_y_Fields_FE_XYZ_Module.py
@@ -118,6 +118,25 @@ class YBoundary_C(df_m.SubDomain):
 
 #class YBoundary_C(df_m.SubDomain):ENDCLASS
 
+#STARTCLASS
+class ZBoundary_C(df_m.SubDomain):
+    """The ZBoundary_C class is a specialized SubDomain
+    """
+    # Set the Z value of the boundary in the constructor
+    def __init__(self, z_boundary_value, map_tol=1.0e-10):
+        self.z_boundary_value=z_boundary_value
+        # Pass the map_tol argument on to the base class
+        super(self.__class__, self).__init__(map_tol=1.0e-10)
+
+    # Return true for points inside the subdomain
+    def inside(self, x, on_boundary):
+        """x[0|1|2] contains the x, y, z coordinates of a point.
+        """
+        tol = 1.0e-10
+        return on_boundary and abs(x[2]-self.z_boundary_value) < tol
+
+#class ZBoundary_C(df_m.SubDomain):ENDCLASS
+
 #STARTCLASS
 class SourceXrange(df_m.SubDomain):
     """The SourceXrange class is a specialized SubDomain to used to
@@ -270,6 +289,10 @@ class UserMesh_C(Mesh_C):
                 particleBoundaryMarker = df_m.MeshFunction('size_t', mesh_df, mesh_df.topology().dim()-1)
                 # Initialize all mesh facets with a default value of 0.
                 particleBoundaryMarker.set_all(0)
+
+                # Mark the X boundaries with non-zero size_t integers
+                XBoundary_C(xmin).mark(particleBoundaryMarker, particleBoundaryDict['xmin'])
+                XBoundary_C(xmax).mark(particleBoundaryMarker, particleBoundaryDict['xmax'])
             else:
                 particleBoundaryMarker = None
             #   END:if particleBoundaryDict is not None:
@@ -387,6 +410,14 @@ class UserMesh_C(Mesh_C):
                 particleBoundaryMarker = df_m.MeshFunction('size_t', mesh_df, mesh_df.topology().dim()-1)
             # Initialize all mesh facets with a default value of 0.
                 particleBoundaryMarker.set_all(0)
+
+                # Mark the boundaries with non-zero size_t integers
+                XBoundary_C(xmin).mark(particleBoundaryMarker, particleBoundaryDict['xmin'])
+                XBoundary_C(xmax).mark(particleBoundaryMarker, particleBoundaryDict['xmax'])
+                YBoundary_C(ymin).mark(particleBoundaryMarker, particleBoundaryDict['ymin'])
+                YBoundary_C(ymax).mark(particleBoundaryMarker, particleBoundaryDict['ymax'])
+                ZBoundary_C(zmin).mark(particleBoundaryMarker, particleBoundaryDict['zmin'])
+                ZBoundary_C(zmax).mark(particleBoundaryMarker, particleBoundaryDict['zmax'])
             else:
                 particleBoundaryMarker = None
 
-- 
2.43.0

