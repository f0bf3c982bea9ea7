From 45ad82821950f43ca96c9c9f043edf5e4916a8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:34 +0000
Subject: [PATCH 1/9] fix: flush only receivers of the scheduled time group

The scheduler flushed the buffers of all receivers when it scheduled a time
group, while workers of other time groups might write to their receivers'
buffers at the same time, which lost or corrupted samples.
---
 src/impl/seismic/inc/time/man_sched.inc | 4 ++--
 src/io/Receivers.cpp                    | 6 +++++-
 src/io/Receivers.h                      | 8 +++++++-
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/impl/seismic/inc/time/man_sched.inc b/src/impl/seismic/inc/time/man_sched.inc
index b9169a8..8586855 100644
--- a/src/impl/seismic/inc/time/man_sched.inc
+++ b/src/impl/seismic/inc/time/man_sched.inc
@@ -161,8 +161,8 @@ for( unsigned short l_tg = 0; l_tg < m_timeGroups.size(); l_tg++ ) {
     m_cflow[l_tg][2] = 3;
     m_cflow[l_tg][4] = 1;
 
-    // flush receivers if buffer size gets low
-    m_recvs.flushIf();
+    // flush receivers of this time group if buffer size gets low
+    m_recvs.flushIf( 50, l_tg );
   }
 
   // issue recvs
diff --git a/src/io/Receivers.cpp b/src/io/Receivers.cpp
index 5670676..9f50b35 100644
--- a/src/io/Receivers.cpp
+++ b/src/io/Receivers.cpp
@@ -322,8 +322,12 @@ void edge::io::Receivers::flushAll() {
   for( std::size_t l_re = 0; l_re < m_recvs.size(); l_re++ ) flush( l_re );
 }
 
-void edge::io::Receivers::flushIf( unsigned int i_tresh ) {
+void edge::io::Receivers::flushIf( unsigned int   i_tresh,
+                                  unsigned short i_tg ) {
   for( std::size_t l_re = 0; l_re < m_recvs.size(); l_re++ ) {
+    // ignore receivers of other time groups
+    if( i_tg != std::numeric_limits< unsigned short >::max() && m_recvs[l_re].tg != i_tg ) continue;
+
     if( m_buffSize - m_recvs[l_re].nBuff < i_tresh ) flush( l_re );
   }
 }
diff --git a/src/io/Receivers.h b/src/io/Receivers.h
index 89ea06f..762d36e 100644
--- a/src/io/Receivers.h
+++ b/src/io/Receivers.h
@@ -26,6 +26,7 @@
 
 #include "constants.hpp"
 #include "data/EntityLayout.type"
+#include <limits>
 #include <string>
 
 namespace edge {
@@ -168,9 +169,14 @@ class edge::io::Receivers {
     /**
      * Flushes receiver's buffers to disk if the remaining size in the buffer if below the treshold.
      *
+     * Remark: The workers of other time groups might write their receivers concurrently. Thus, callers, which only know that
+     *         a single time group does not write its receivers at the moment, have to limit the call to this time group.
+     *
      * @param i_treshold, which triggers writers if the buffers remaining entries is below. 
+     * @param i_tg time group whose receivers are considered (max: all receivers).
      **/
-    virtual void flushIf( unsigned int i_tresh=50 );
+    virtual void flushIf( unsigned int   i_tresh = 50,
+                          unsigned short i_tg    = std::numeric_limits< unsigned short >::max() );
 };
 
 #endif
-- 
2.43.0


From 7b3f0a8db3c197d11d25bf608a5f750a1f50f52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:09 +0000
Subject: [PATCH 2/9] fix: initialize the centroid before accumulating the
 vertices

---
 tools/edge_v/src/geom/Generic.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/edge_v/src/geom/Generic.cpp b/tools/edge_v/src/geom/Generic.cpp
index cf0fff0..da78a41 100644
--- a/tools/edge_v/src/geom/Generic.cpp
+++ b/tools/edge_v/src/geom/Generic.cpp
@@ -29,6 +29,10 @@ void edge_v::geom::Generic::centroid( t_entityType         i_enTy,
                                       double               o_cen[3] ) {
   unsigned short l_nEnVes = CE_N_VES( i_enTy );
 
+  for( unsigned short l_di = 0; l_di < 3; l_di++ ) {
+    o_cen[l_di] = 0;
+  }
+
   for( unsigned short l_ve = 0; l_ve < l_nEnVes; l_ve++ ) {
     for( unsigned short l_di = 0; l_di < 3; l_di++ ) {
       o_cen[l_di] += i_veCrds[l_ve][l_di];
-- 
2.43.0


From 3dd43f01e0d43c0675b0711a7290e3566a96778a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:43 +0000
Subject: [PATCH 3/9] fix: initialize the sizes of empty partitions

---
 tools/edge_v/src/mesh/Partition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/edge_v/src/mesh/Partition.cpp b/tools/edge_v/src/mesh/Partition.cpp
index d20788d..d1a22df 100644
--- a/tools/edge_v/src/mesh/Partition.cpp
+++ b/tools/edge_v/src/mesh/Partition.cpp
@@ -232,7 +232,7 @@ void edge_v::mesh::Partition::kWay( t_idx          i_nParts,
   // store the number of partitions and elements per partition
   m_nPas = i_nParts;
   if( m_nPaEls != nullptr ) delete[] m_nPaEls;
-  m_nPaEls = new t_idx[ i_nParts ];
+  m_nPaEls = new t_idx[ i_nParts ]();
   nPaEls( m_mesh.nEls(),
           m_elPa,
           m_nPaEls );
-- 
2.43.0


From 9dbe64a001e9efbd300d89bf695f48fa62e2c318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:49 +0000
Subject: [PATCH 4/9] fix: store 64-bit unsigned values as unsigned in the HDF5
 files

---
 tools/edge_v/src/io/Hdf5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/edge_v/src/io/Hdf5.cpp b/tools/edge_v/src/io/Hdf5.cpp
index b8a1e2c..32d6912 100644
--- a/tools/edge_v/src/io/Hdf5.cpp
+++ b/tools/edge_v/src/io/Hdf5.cpp
@@ -183,7 +183,7 @@ void edge_v::io::Hdf5::set( std::string const & i_name,
        i_nValues,
        l_data,
        H5T_NATIVE_ULONG,
-       H5T_STD_I64LE );
+       H5T_STD_U64LE );
 
   // free memory
   delete[] l_data;
-- 
2.43.0


From 0c3861d2d8765afe0a06fba40164eb6fec482bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:45 +0000
Subject: [PATCH 5/9] fix: mark undefined adjacencies as invalid in links of a
 single sparse type

---
 src/data/SparseEntities.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data/SparseEntities.hpp b/src/data/SparseEntities.hpp
index 6005d1c..fed394d 100644
--- a/src/data/SparseEntities.hpp
+++ b/src/data/SparseEntities.hpp
@@ -541,7 +541,10 @@ class edge::data::SparseEntities {
             TL_T_INT_LID l_aeId = i_enEn[ l_de * i_nAdjPerEn + l_ae ];
 
             // ignore undefined adjacencies
-            if( l_aeId == std::numeric_limits< TL_T_INT_LID >::max() ) continue;
+            if( l_aeId == std::numeric_limits< TL_T_INT_LID >::max() ) {
+              o_spLink[ l_spId*i_nAdjPerEn + l_ae ] = std::numeric_limits< TL_T_INT_LID >::max();
+              continue;
+            }
 
             if( ( i_charsAdj[l_aeId].spType & i_spType ) == i_spType ) o_spLink[ l_spId*i_nAdjPerEn + l_ae ] = l_adjDeToSp[l_aeId];
             else                                                       o_spLink[ l_spId*i_nAdjPerEn + l_ae ] = std::numeric_limits< TL_T_INT_LID >::max();
-- 
2.43.0


From a001314391928560781be6e218252a6a1e87c2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:58 +0000
Subject: [PATCH 6/9] fix: 2D friction law: direct the traction of sliding
 points as the trial traction

---
 src/impl/seismic/solvers/FrictionLaws.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/impl/seismic/solvers/FrictionLaws.hpp b/src/impl/seismic/solvers/FrictionLaws.hpp
index 01ecfff..a2be4ae 100644
--- a/src/impl/seismic/solvers/FrictionLaws.hpp
+++ b/src/impl/seismic/solvers/FrictionLaws.hpp
@@ -141,9 +141,9 @@ class edge::seismic::solvers::FrictionLaws< 2, TL_N_CRUNS > {
 
       // perturb middle states and update friction coefficient
       for( unsigned short l_ru = 0; l_ru < TL_N_CRUNS; l_ru++ ) {
-        // compute traction
-        o_tr[l_ru] = o_st[l_ru] - std::abs(i_ss0[l_ru]);
-        o_tr[l_ru] = (i_ss0[l_ru] > 0) ? o_tr[l_ru] : -o_tr[l_ru];
+        // compute traction: the strength, directed as the total shear stress, minus the initial shear stress
+        o_tr[l_ru]  = (i_ss0[l_ru] + i_ms[2][l_ru] > 0) ? o_st[l_ru] : -o_st[l_ru];
+        o_tr[l_ru] -= i_ss0[l_ru];
 
         // fall back to middle state if the fault is locked
         o_tr[l_ru] = (o_per[l_ru]) ? o_tr[l_ru] : i_ms[2][l_ru];
-- 
2.43.0


From 6f504307baf377aed7d4b909d8cde3f01830aeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:18 +0000
Subject: [PATCH 7/9] fix: edge_cut: write the surfaces with full precision and
 end the sides at the target depth

---
 tools/edge_cut/src/main.cpp         | 4 ++++
 tools/edge_cut/src/mesh/Extrude.cpp | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/tools/edge_cut/src/main.cpp b/tools/edge_cut/src/main.cpp
index cfc4441..e6075f0 100644
--- a/tools/edge_cut/src/main.cpp
+++ b/tools/edge_cut/src/main.cpp
@@ -85,6 +85,10 @@ int main( int i_argc, char *i_argv[] ) {
   std::ofstream l_top(    l_config.getMeshOutTop(),
                           std::ios::out );
 
+  // use full precision, the default of six digits merges points with large coordinates
+  for( std::ofstream * l_out : { &l_left, &l_right, &l_front, &l_back, &l_bottom, &l_top } )
+    l_out->precision( std::numeric_limits< double >::max_digits10 );
+
   // write
   EDGE_CUT_LOG_INFO << "writing output meshes";
   l_ext.writeOff( l_left,
diff --git a/tools/edge_cut/src/mesh/Extrude.cpp b/tools/edge_cut/src/mesh/Extrude.cpp
index cd37b94..b80c8c9 100644
--- a/tools/edge_cut/src/mesh/Extrude.cpp
+++ b/tools/edge_cut/src/mesh/Extrude.cpp
@@ -34,6 +34,8 @@ void edge_cut::mesh::Extrude::addSide( std::size_t                  i_nSteps,
       double l_z = std::get<2>( i_veCrdsBnd[l_ve] );
       double l_dx = (i_zTarget - l_z) / i_nSteps;
              l_z += l_st * l_dx;
+      // match the bottom surface exactly
+      if( l_st == i_nSteps ) l_z = i_zTarget;
 
       o_veCrds.push_back( std::make_tuple( std::get<0>( i_veCrdsBnd[l_ve] ),
                                            std::get<1>( i_veCrdsBnd[l_ve] ),
@@ -445,6 +447,7 @@ void edge_cut::mesh::Extrude::writeOff( std::ostream & io_left,
 
   // top
   std::stringstream l_top;
+  l_top.precision( io_top.precision() );
   writePtsOff( m_veCrdsSurf,
                l_top );
   std::size_t l_nTria = writeTriaOff( m_nx[0],
-- 
2.43.0


From c5705c6c2b4f05dde4f778cc7ac5bd8497ed2b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:51 +0000
Subject: [PATCH 8/9] fix: integrate piecewise-linear series correctly within a
 single sampling interval

---
 src/linalg/Series.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/linalg/Series.hpp b/src/linalg/Series.hpp
index 0fdbd77..a8dade1 100644
--- a/src/linalg/Series.hpp
+++ b/src/linalg/Series.hpp
@@ -74,8 +74,14 @@ class edge::linalg::Series {
       std::size_t l_first = std::max( (i_x1 - i_xStart + i_dx)/i_dx, (TL_T_REAL) 0 );
       std::size_t l_last  = std::max( (i_x2 - i_xStart       )/i_dx, (TL_T_REAL) 0 );
                   l_last  = std::min( l_last,  i_nPts-1 );
-                  l_first = std::min( l_first, l_last );
+                  l_first = std::min( l_first, std::min( l_last+1, i_nPts-1 ) );
 
+      // x1 and x2 are in the same interval: remove it once, since it's covered from both sides below
+      if( l_first > l_last ) {
+        for( unsigned short l_se = 0; l_se < TL_N_SERIES; l_se++ ) {
+          o_int[l_se] -= l_dxH * ( i_vals[l_first][l_se] + i_vals[l_last][l_se] );
+        }
+      }
 
       // add contribution of the covered intervals
       for( std::size_t l_pt = l_first+1; l_pt < l_last+1; l_pt++ ) {
-- 
2.43.0


From b473b8774c03d7c4e168aab52edecf45fdf76a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:51 +0000
Subject: [PATCH 9/9] fix: order hexahedral shape functions consistently with
 the sub-cell vertices

---
 tools/edge_pre/edge_pre/sc/grid/Hex.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/edge_pre/edge_pre/sc/grid/Hex.py b/tools/edge_pre/edge_pre/sc/grid/Hex.py
index 744786e..2af5125 100644
--- a/tools/edge_pre/edge_pre/sc/grid/Hex.py
+++ b/tools/edge_pre/edge_pre/sc/grid/Hex.py
@@ -277,15 +277,15 @@ def scSfSc( i_deg ):
 def intSc( i_deg, i_syms ):
   assert( len(i_syms) == 3 )
 
-  # hex shape functions
+  # hex shape functions, ordered as the vertices of the sub-cells (strictly following the dimensions)
   l_shape = [ (1 - i_syms[0]) * (1 - i_syms[1]) * (1 - i_syms[2]),
                i_syms[0]      * (1 - i_syms[1]) * (1 - i_syms[2]),
-               i_syms[0]      *  i_syms[1]      * (1 - i_syms[2]),
               (1 - i_syms[0]) *  i_syms[1]      * (1 - i_syms[2]),
+               i_syms[0]      *  i_syms[1]      * (1 - i_syms[2]),
               (1 - i_syms[0]) * (1 - i_syms[1]) *  i_syms[2],
                i_syms[0]      * (1 - i_syms[1]) *  i_syms[2],
-               i_syms[0]      *  i_syms[1]      *  i_syms[2],
-              (1 - i_syms[0]) *  i_syms[1]      *  i_syms[2] ]
+              (1 - i_syms[0]) *  i_syms[1]      *  i_syms[2],
+               i_syms[0]      *  i_syms[1]      *  i_syms[2] ]
 
   # get sub-cell coords
   l_svs = svs( i_deg )
-- 
2.43.0

