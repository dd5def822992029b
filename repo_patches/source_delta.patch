From a121ee0fd08b32f4154bd6684f87f0ef96bf9fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:43 +0000
Subject: [PATCH 01/19] fix: legacy sort_p left a stale partition for a species
 without particles

---
 src/species_advance/standard/sort_p.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/species_advance/standard/sort_p.cc b/src/species_advance/standard/sort_p.cc
index 935d6fa..7966237 100644
--- a/src/species_advance/standard/sort_p.cc
+++ b/src/species_advance/standard/sort_p.cc
@@ -45,7 +45,11 @@ sort_p( species_t * sp )
 
   // Do not need to sort.
   if ( np == 0 )
+  {
+    // No particles in any voxel.
+    CLEAR( partition, nc1 );
     return;
+  }
 
   // Allocate the sorting intermediate. Making this into a static is done to
   // avoid heap shredding.
-- 
2.43.0


From 2fc0e352a21095fc710faa7da2548c4b382a4cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:43 +0000
Subject: [PATCH 02/19] fix: inject_particle wrote beyond the mover array when
 no mover was left

---
 src/vpic/misc.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vpic/misc.cc b/src/vpic/misc.cc
index b1c24af..4ece4cb 100644
--- a/src/vpic/misc.cc
+++ b/src/vpic/misc.cc
@@ -84,8 +84,10 @@ vpic_simulation::inject_particle( species_t * sp,
   if( update_rhob ) accumulate_rhob( field_array->f, p, grid, -sp->q );
 
   if( age!=0 ) {
-    if( sp->nm>=sp->max_nm )
+    if( sp->nm>=sp->max_nm ) {
       WARNING(( "No movers available to age injected  particle" ));
+      return;
+    }
     particle_mover_t * pm = sp->pm + sp->nm;
     age *= grid->cvac*grid->dt/sqrt( ux*ux + uy*uy + uz*uz + 1 );
     pm->dispx = ux*age*grid->rdx;
-- 
2.43.0


From 2825accc926268ce7a177218f285c4568f933caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:43 +0000
Subject: [PATCH 03/19] fix: poynting_flux summed uninitialised values on ranks
 off the left face

---
 src/vpic/diagnostics.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vpic/diagnostics.cc b/src/vpic/diagnostics.cc
index 7d00523..04261c9 100644
--- a/src/vpic/diagnostics.cc
+++ b/src/vpic/diagnostics.cc
@@ -42,7 +42,7 @@ double vpic_simulation::poynting_flux(double e0) {
 		ERROR(("Failed pvec allocation in poynting flux diagnostic"));
 	} // if
 
-	memset(pvec, 0, stride);
+	memset(pvec, 0, stride*sizeof(float));
 
 	int ix, k1, k2;
 	RANK_TO_INDEX( int(rank()), ix);
-- 
2.43.0


From faee1ae4a90603fefd72d4f87aeb4f1fe45453bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:43 +0000
Subject: [PATCH 04/19] fix: DMP buffer sizing accepted a port one beyond the
 last

---
 src/util/mp/DMPPolicy.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/mp/DMPPolicy.h b/src/util/mp/DMPPolicy.h
index 535e14b..4b783fc 100644
--- a/src/util/mp/DMPPolicy.h
+++ b/src/util/mp/DMPPolicy.h
@@ -245,7 +245,7 @@ struct DMPPolicy {
                        int sz ) {
     char * ALIGNED(128) buf;
   
-    if( !mp || port<0 || port>mp->n_port || sz<1 ) ERROR(( "Bad args" ));
+    if( !mp || port<0 || port>=mp->n_port || sz<1 ) ERROR(( "Bad args" ));
   
     // If there already a large enough buffer, we are done
     if( mp->rbuf_sz[port]>=sz ) return;
@@ -276,7 +276,7 @@ struct DMPPolicy {
     char * ALIGNED(128) buf;
   
     // Check input arguments
-    if( !mp || port<0 || port>mp->n_port || sz<1 ) ERROR(( "Bad args" ));
+    if( !mp || port<0 || port>=mp->n_port || sz<1 ) ERROR(( "Bad args" ));
 
     // Is there already a large enough buffer
     if( mp->sbuf_sz[port]>=sz ) return;
-- 
2.43.0


From c575f5742d7bfe3fd9f268b42c911e38d62e6107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:43 +0000
Subject: [PATCH 05/19] fix: interleaved hydro dump omitted the ghost cells and
 wrote truncated planes

---
 src/vpic/dump.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/vpic/dump.cc b/src/vpic/dump.cc
index 89c05f2..6d49b67 100644
--- a/src/vpic/dump.cc
+++ b/src/vpic/dump.cc
@@ -837,9 +837,9 @@ vpic_simulation::hydro_dump( const char * speciesname,
   {
     WRITE_HEADER_V0( dump_type::hydro_dump, sp->id, sp->q/sp->m, dumpStep, fileIO );
 
-    dim[0] = nxout;
-    dim[1] = nyout;
-    dim[2] = nzout;
+    dim[0] = nxout+2;
+    dim[1] = nyout+2;
+    dim[2] = nzout+2;
 
     WRITE_ARRAY_HEADER(h, 3, dim, fileIO);
 
@@ -852,9 +852,9 @@ vpic_simulation::hydro_dump( const char * speciesname,
 
     else
     {
-      for(size_t k(0); k<nzout; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-1;
-      for(size_t j(0); j<nyout; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-1;
-      for(size_t i(0); i<nxout; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-1;
+      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-1;
+      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-1;
+      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-1;
             fileIO.write( &hydro( ioff, joff, koff ), 1 );
       }
       }
-- 
2.43.0


From fe4fa338b0ba176eca37323366c7e45d567a16da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:43 +0000
Subject: [PATCH 06/19] fix: delete_maxwellian_reflux leaked its temperature
 tables

---
 src/boundary/maxwellian_reflux.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/boundary/maxwellian_reflux.cc b/src/boundary/maxwellian_reflux.cc
index b4f411f..c0d9bf7 100644
--- a/src/boundary/maxwellian_reflux.cc
+++ b/src/boundary/maxwellian_reflux.cc
@@ -202,7 +202,10 @@ restore_maxwellian_reflux( void ) {
 
 void
 delete_maxwellian_reflux( particle_bc_t * RESTRICT pbc ) {
-  FREE( pbc->params );
+  maxwellian_reflux_t * mr = (maxwellian_reflux_t *)pbc->params;
+  FREE( mr->ut_para );
+  FREE( mr->ut_perp );
+  FREE( mr );
   delete_particle_bc_internal( pbc );
 }
 
-- 
2.43.0


From f46cb437447503ceb857c4f3b6569de9483326a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:43 +0000
Subject: [PATCH 07/19] fix: set_point_region_bc did not compile

---
 deck/wrapper.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/deck/wrapper.h b/deck/wrapper.h
index f5b5c81..2f629c4 100644
--- a/deck/wrapper.h
+++ b/deck/wrapper.h
@@ -176,12 +176,12 @@ vpic_simulation::user_particle_collisions( void )
             if( _r001 || _r101 || _r011 || _r111 ) _n[5] = _epbc;        \
           }                                                              \
           if( _ipbc ) {                                                  \
-            if( _r000 && _r010 && _r001 && _r011 ) _n[0] = _ipbc         \
-            if( _r000 && _r001 && _r100 && _r101 ) _n[1] = _ipbc         \
-            if( _r000 && _r100 && _r010 && _r110 ) _n[2] = _ipbc         \
-            if( _r100 && _r110 && _r101 && _r111 ) _n[3] = _ipbc         \
-            if( _r010 && _r011 && _r110 && _r111 ) _n[4] = _ipbc         \
-            if( _r001 && _r101 && _r011 && _r111 ) _n[5] = _ipbc         \
+            if( _r000 && _r010 && _r001 && _r011 ) _n[0] = _ipbc;        \
+            if( _r000 && _r001 && _r100 && _r101 ) _n[1] = _ipbc;        \
+            if( _r000 && _r100 && _r010 && _r110 ) _n[2] = _ipbc;        \
+            if( _r100 && _r110 && _r101 && _r111 ) _n[3] = _ipbc;        \
+            if( _r010 && _r011 && _r110 && _r111 ) _n[4] = _ipbc;        \
+            if( _r001 && _r101 && _r011 && _r111 ) _n[5] = _ipbc;        \
           }                                                              \
           _n += 6;                                                       \
     }}}                                                                  \
-- 
2.43.0


From 4e4eb87823dda20582193eaa2f4328aa5243a85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:43 +0000
Subject: [PATCH 08/19] fix: child_langmuir gave all but the first particle of
 a face a wrong weight

---
 src/emitter/child_langmuir.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/emitter/child_langmuir.cc b/src/emitter/child_langmuir.cc
index cbeb5c2..70597ce 100644
--- a/src/emitter/child_langmuir.cc
+++ b/src/emitter/child_langmuir.cc
@@ -66,7 +66,7 @@ emit_child_langmuir( child_langmuir_t * RESTRICT              cl,
   int np = sp->np, np_skipped = 0;
   int nm = sp->nm, nm_skipped = 0;
 
-  float w, ux, uy, uz;
+  float w, age, ux, uy, uz;
   int c, cc, i, np_emit;
 
   // Loop over all components of the region
@@ -104,12 +104,12 @@ emit_child_langmuir( child_langmuir_t * RESTRICT              cl,
         /* Age the particle */                                          \
                                                                         \
         if( nm>=max_nm ) { nm_skipped++; continue; }                    \
-        w = ( frand_c0(rng)*cdt ) /                                     \
+        age = ( frand_c0(rng)*cdt ) /                                     \
           sqrtf( ( u##X*u##X + u##Y*u##Y ) + ( u##Z*u##Z + 1 ) );       \
         DECLARE_ALIGNED_ARRAY( particle_mover_t, 16, local_pm, 1 );     \
-        local_pm->disp##X = w*u##X*rd##X;                               \
-        local_pm->disp##Y = w*u##Y*rd##Y;                               \
-        local_pm->disp##Z = w*u##Z*rd##Z;                               \
+        local_pm->disp##X = age*u##X*rd##X;                               \
+        local_pm->disp##Y = age*u##Y*rd##Y;                               \
+        local_pm->disp##Z = age*u##Z*rd##Z;                               \
         local_pm->i       = np-1;                                       \
         if (move_p( p, local_pm, a, g, qsp )) {                         \
             pm[nm++] = local_pm[0];                                     \
-- 
2.43.0


From c2e36a3636b076f2c5ec766ef425c17cc2468544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:43 +0000
Subject: [PATCH 09/19] fix: binary collisions could pick a particle beyond the
 voxel

---
 src/collision/pipeline/binary_pipeline.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collision/pipeline/binary_pipeline.cc b/src/collision/pipeline/binary_pipeline.cc
index e359530..714258a 100644
--- a/src/collision/pipeline/binary_pipeline.cc
+++ b/src/collision/pipeline/binary_pipeline.cc
@@ -117,8 +117,8 @@ binary_pipeline_scalar( binary_collision_model_t * RESTRICT cm,
          of getting k on 0:nk-1 and l on 0:nl-1 and uses the
          preferred high order randgen bits). */
   
-      do { k = (int)(uirand(rng)/rk); } while( k==nk ); k += k0;
-      do { l = (int)(uirand(rng)/rl); } while( l==nl ); l += l0;
+      do { k = (int)(uirand(rng)/rk); } while( k>=nk ); k += k0;
+      do { l = (int)(uirand(rng)/rl); } while( l>=nl ); l += l0;
      
       /* Compute the probability that a physical particle in the
          species whose candidate computational particle has the least
-- 
2.43.0


From 8d02c08983b66d8ab62397d257a08642b9ae5ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 10/19] fix: missing argument of the magnetic conductivity
 warning

---
 src/field_advance/standard/sfa.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/field_advance/standard/sfa.cc b/src/field_advance/standard/sfa.cc
index 7d22365..74a85e1 100644
--- a/src/field_advance/standard/sfa.cc
+++ b/src/field_advance/standard/sfa.cc
@@ -94,7 +94,7 @@ create_sfa_params( grid_t * g,
     if( cg2>=1 )
       WARNING(( "\"%s\" Courant condition estimate = %e", m->name, sqrt(cg2) ));
     if( m->zetax!=0 || m->zetay!=0 || m->zetaz!=0 )
-      WARNING(( "\"%s\" magnetic conductivity is not supported" ));
+      WARNING(( "\"%s\" magnetic conductivity is not supported", m->name ));
     n_mc++;
   }
 
-- 
2.43.0


From 0c6e499a984cf2c7b1d435f85d75a0f75f2c779e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:52 +0000
Subject: [PATCH 11/19] fix: set_region_field evaluated fields half a cell or a
 cell off

---
 deck/wrapper.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deck/wrapper.h b/deck/wrapper.h
index 2f629c4..bcf602d 100644
--- a/deck/wrapper.h
+++ b/deck/wrapper.h
@@ -393,9 +393,9 @@ vpic_simulation::user_particle_collisions( void )
     const double _dx = grid->dx, _dy = grid->dy, _dz = grid->dz;      \
     const double _c  = grid->cvac;                                    \
     const int    _nx = grid->nx, _ny = grid->ny, _nz = grid->nz;      \
-    for( int _k=0; _k<_nz+2; _k++ ) { const double _zl = _z0 + _dz*(_k-1.5), _ze = _z0 + _dz*_k, _zc = _z0 + _dz*(_k-0.5); \
-    for( int _j=0; _j<_ny+2; _j++ ) { const double _yl = _y0 + _dy*(_j-1.5), _ye = _y0 + _dy*_j, _yc = _y0 + _dy*(_j-0.5); field_t *_f = &field(0,_j,_k); \
-    for( int _i=0; _i<_nx+2; _i++ ) { const double _xl = _x0 + _dx*(_i-1.5), _xe = _x0 + _dx*_i, _xc = _x0 + _dx*(_i-0.5); double x, y, z; \
+    for( int _k=0; _k<_nz+2; _k++ ) { const double _zl = _z0 + _dz*(_k-1.5), _ze = _z0 + _dz*(_k-1), _zc = _z0 + _dz*(_k-0.5); \
+    for( int _j=0; _j<_ny+2; _j++ ) { const double _yl = _y0 + _dy*(_j-1.5), _ye = _y0 + _dy*(_j-1), _yc = _y0 + _dy*(_j-0.5); field_t *_f = &field(0,_j,_k); \
+    for( int _i=0; _i<_nx+2; _i++ ) { const double _xl = _x0 + _dx*(_i-1.5), _xe = _x0 + _dx*(_i-1), _xc = _x0 + _dx*(_i-0.5); double x, y, z; \
           int _rccc, _rlcc, _rclc, _rllc, _rccl, _rlcl, _rcll;        \
           x = _xc; y = _yc; z = _zc; _rccc = (rgn);                   \
           x = _xl;                   _rlcc = (rgn);                   \
-- 
2.43.0


From e43ab04acf81bae4306b4dcbd5bace31f58c952e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:02 +0000
Subject: [PATCH 12/19] fix: draw shuffle swaps over the whole range of the
 64-bit random number

---
 src/util/rng/rng.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/rng/rng.cc b/src/util/rng/rng.cc
index 4215670..c343ce4 100644
--- a/src/util/rng/rng.cc
+++ b/src/util/rng/rng.cc
@@ -489,7 +489,7 @@ shuffle( rng_t * RESTRICT r,
          size_t sz_ele,
          size_t str_ele,
          size_t n_ele ) {
-  uint32_t a, d;
+  uint64_t a, d;
   size_t i, j, k;
 
   if( n_ele<2 || !sz_ele ) return _x;
-- 
2.43.0


From 606f27feefff4b07f2482d1c0e55eb8c0da2191c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:02 +0000
Subject: [PATCH 13/19] fix: print the domain decomposition in the bad
 resolution message

---
 src/grid/partition.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grid/partition.cc b/src/grid/partition.cc
index 37f6b51..2511350 100644
--- a/src/grid/partition.cc
+++ b/src/grid/partition.cc
@@ -49,7 +49,7 @@ partition_periodic_box( grid_t * g,
     ERROR(( "Bad domain decompostion (%ix%ix%i)", gpx, gpy, gpz ));
 
   if( gnx<1 || gny<1 || gnz<1 || gnx%gpx!=0 || gny%gpy!=0 || gnz%gpz!=0 )
-    ERROR(( "Bad resolution (%ix%ix%i) for domain decomposition",
+    ERROR(( "Bad resolution (%ix%ix%i) for domain decomposition (%ix%ix%i)",
             gnx, gny, gnz, gpx, gpy, gpz ));
 
   // Setup basic variables
-- 
2.43.0


From 4ee85c80aacd2ee1e9fe3a3e630acfe073f783fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:02 +0000
Subject: [PATCH 14/19] fix: print the 64-bit step number of the status message
 with a matching format

---
 src/vpic/advance.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vpic/advance.cc b/src/vpic/advance.cc
index 4b2d13b..f9fa95c 100644
--- a/src/vpic/advance.cc
+++ b/src/vpic/advance.cc
@@ -189,7 +189,7 @@ int vpic_simulation::advance(void) {
   // Print out status
 
   if( (status_interval>0) && ((step() % status_interval)==0) ) {
-    if( rank()==0 ) MESSAGE(( "Completed step %i of %i", step(), num_step ));
+    if( rank()==0 ) MESSAGE(( "Completed step %li of %i", (long)step(), num_step ));
     update_profile( rank()==0 );
   }
 
-- 
2.43.0


From 24babcc7470a0e109942557c939e4a8ffa43277b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:33 +0000
Subject: [PATCH 15/19] fix: strided dumps sample the planes the header
 describes

With a stride of 1 in one dimension and another stride in a different one,
the strided loops read plane k-1 for plane k: the lower ghost plane was
written twice and the last interior plane was never written. The header
puts element k at x0 + (k-1)*stride*dx, which is voxel (k-1)*stride+1 for
every stride; use that index.
---
 src/vpic/dump.cc | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/vpic/dump.cc b/src/vpic/dump.cc
index 6d49b67..24770da 100644
--- a/src/vpic/dump.cc
+++ b/src/vpic/dump.cc
@@ -653,9 +653,9 @@ vpic_simulation::field_dump( DumpParameters & dumpParams,
     else
     {
       for(size_t v(0); v<numvars; v++) {
-      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-1;
-      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-1;
-      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-1;
+      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : (k-1)*kstride+1;
+      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : (j-1)*jstride+1;
+      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : (i-1)*istride+1;
               const uint32_t * fref = reinterpret_cast<uint32_t *>(&f(ioff,joff,koff));
               fileIO.write(&fref[varlist[v]], 1);
               if(rank()==VERBOSE_rank) printf("%f ", f(ioff,joff,koff).ex);
@@ -690,9 +690,9 @@ vpic_simulation::field_dump( DumpParameters & dumpParams,
 
     else
     {
-      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-1;
-      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-1;
-      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-1;
+      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : (k-1)*kstride+1;
+      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : (j-1)*jstride+1;
+      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : (i-1)*istride+1;
             fileIO.write( &f( ioff, joff, koff ), 1 );
       }
       }
@@ -819,9 +819,9 @@ vpic_simulation::hydro_dump( const char * speciesname,
     else
 
       for(size_t v(0); v<numvars; v++)
-      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-1;
-      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-1;
-      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-1;
+      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : (k-1)*kstride+1;
+      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : (j-1)*jstride+1;
+      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : (i-1)*istride+1;
               const uint32_t * href = reinterpret_cast<uint32_t *>(&hydro(ioff,joff,koff));
               fileIO.write(&href[varlist[v]], 1);
       }
@@ -852,9 +852,9 @@ vpic_simulation::hydro_dump( const char * speciesname,
 
     else
     {
-      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-1;
-      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-1;
-      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-1;
+      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : (k-1)*kstride+1;
+      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : (j-1)*jstride+1;
+      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : (i-1)*istride+1;
             fileIO.write( &hydro( ioff, joff, koff ), 1 );
       }
       }
-- 
2.43.0


From aa2fed410f568d444da5927971b743fcad8eb60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:33 +0000
Subject: [PATCH 16/19] fix: dump_species writes one line per species

The entries ran into each other: the mass of one species was followed
directly by the name of the next.
---
 src/vpic/dump.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vpic/dump.cc b/src/vpic/dump.cc
index 24770da..1f81b11 100644
--- a/src/vpic/dump.cc
+++ b/src/vpic/dump.cc
@@ -89,7 +89,7 @@ vpic_simulation::dump_species( const char *fname ) {
   FileIOStatus status = fileIO.open(fname, io_write);
   if( status==fail ) ERROR(( "Could not open \"%s\".", fname ));
   LIST_FOR_EACH( sp, species_list )
-    fileIO.print( "%s %i %e %e", sp->name, sp->id, sp->q, sp->m );
+    fileIO.print( "%s %i %e %e\n", sp->name, sp->id, sp->q, sp->m );
   if( fileIO.close() ) ERROR(( "File close failed on dump species!!!" ));
 }
 
-- 
2.43.0


From 06eca05e3e4442fc070b2e130bceccb221d59eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:56 +0000
Subject: [PATCH 17/19] fix: banded field dumps write the material ids

The material variables (16 to 23) were written as 32-bit words of the field
at these indices: pairs of ids, and beyond index 19 data past the end of
the field (past the end of the array for the last voxel). Write each id
with the type and size the global header announces.
---
 src/vpic/dump.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/vpic/dump.cc b/src/vpic/dump.cc
index 1f81b11..512ac59 100644
--- a/src/vpic/dump.cc
+++ b/src/vpic/dump.cc
@@ -530,6 +530,17 @@ vpic_simulation::global_header( const char * base,
   if( fileIO.close() ) ERROR(( "File close failed on global header!!!" ));
 }
 
+// The first 16 variables of a field are words, the others are material ids.
+static inline void
+write_field_variable( FileIO & fileIO,
+                      const field_t * f,
+                      size_t v )
+{
+  const uint32_t * w = reinterpret_cast<const uint32_t *>(f);
+  if( v<16 ) fileIO.write( w+v, 1 );
+  else       fileIO.write( reinterpret_cast<const material_id *>(w+16) + (v-16), 1 );
+}
+
 void
 vpic_simulation::field_dump( DumpParameters & dumpParams,
 			     field_t *f,
@@ -640,8 +651,7 @@ vpic_simulation::field_dump( DumpParameters & dumpParams,
       for(size_t k(0); k<nzout+2; k++) {
       for(size_t j(0); j<nyout+2; j++) {
       for(size_t i(0); i<nxout+2; i++) {
-              const uint32_t * fref = reinterpret_cast<uint32_t *>(&f(i,j,k));
-              fileIO.write(&fref[varlist[v]], 1);
+              write_field_variable( fileIO, &f(i,j,k), varlist[v] );
               if(rank()==VERBOSE_rank) printf("%f ", f(i,j,k).ex);
               if(rank()==VERBOSE_rank) std::cout << "(" << i << " " << j << " " << k << ")" << std::endl;
       } if(rank()==VERBOSE_rank) std::cout << std::endl << "ROW_BREAK " << j << " " << k << std::endl;
@@ -656,8 +666,7 @@ vpic_simulation::field_dump( DumpParameters & dumpParams,
       for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : (k-1)*kstride+1;
       for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : (j-1)*jstride+1;
       for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : (i-1)*istride+1;
-              const uint32_t * fref = reinterpret_cast<uint32_t *>(&f(ioff,joff,koff));
-              fileIO.write(&fref[varlist[v]], 1);
+              write_field_variable( fileIO, &f(ioff,joff,koff), varlist[v] );
               if(rank()==VERBOSE_rank) printf("%f ", f(ioff,joff,koff).ex);
               if(rank()==VERBOSE_rank) std::cout << "(" << ioff << " " << joff << " " << koff << ")" << std::endl;
       } if(rank()==VERBOSE_rank) std::cout << std::endl << "ROW_BREAK " << joff << " " << koff << std::endl;
-- 
2.43.0


From 964b74f8d1d3add8a015f1f00cc671a0965bed55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:42 +0000
Subject: [PATCH 18/19] fix: delete the parameters of hard-sphere and
 large-angle-Coulomb collision models with the models

The parameters were registered for checkpoints and never unregistered or
freed, so every run that used these models ended in halt_checkpt's
'objects still registered' error.
---
 src/collision/binary.h               |  3 ++
 src/collision/hard_sphere.cc         | 41 ++++++++++++++++++++++++++--
 src/collision/large_angle_coulomb.cc | 41 ++++++++++++++++++++++++++--
 src/collision/unary.h                |  3 ++
 4 files changed, 82 insertions(+), 6 deletions(-)

diff --git a/src/collision/binary.h b/src/collision/binary.h
index aa16dd3..a748c41 100644
--- a/src/collision/binary.h
+++ b/src/collision/binary.h
@@ -20,4 +20,7 @@ typedef struct binary_collision_model
 void
 apply_binary_collision_model_pipeline( binary_collision_model_t * cm );
 
+void
+delete_binary_collision_model( collision_op_t * cop );
+
 #endif /* _binary_h_ */
diff --git a/src/collision/hard_sphere.cc b/src/collision/hard_sphere.cc
index 495d922..febac47 100644
--- a/src/collision/hard_sphere.cc
+++ b/src/collision/hard_sphere.cc
@@ -1,4 +1,7 @@
-#include "collision.h"
+#define IN_collision
+
+#include "unary.h"
+#include "binary.h"
 
 /* Private interface *********************************************************/
 
@@ -359,6 +362,32 @@ restore_hard_sphere( void )
   return hs;
 }
 
+/* The parameters were created along with the model and go with it. */
+
+void
+delete_hard_sphere_fluid( collision_op_t * cop )
+{
+  hard_sphere_t * hs = (hard_sphere_t *)
+    ( (unary_collision_model_t *) cop->params )->params;
+
+  delete_unary_collision_model( cop );
+
+  UNREGISTER_OBJECT( hs );
+  FREE( hs );
+}
+
+void
+delete_hard_sphere( collision_op_t * cop )
+{
+  hard_sphere_t * hs = (hard_sphere_t *)
+    ( (binary_collision_model_t *) cop->params )->params;
+
+  delete_binary_collision_model( cop );
+
+  UNREGISTER_OBJECT( hs );
+  FREE( hs );
+}
+
 /* Public interface **********************************************************/
 
 collision_op_t *
@@ -376,6 +405,7 @@ hard_sphere_fluid( const char * RESTRICT name, /* Model name */
                    const int interval )        /* How often to apply this */
 {
   hard_sphere_t * hs;
+  collision_op_t * cop;
 
   if( n0<0 || kT0<0 || m0<=0 || r0<0 ||
       !sp || sp->m<=0 || rsp<0 ) ERROR(( "Bad args" ));
@@ -396,10 +426,12 @@ hard_sphere_fluid( const char * RESTRICT name, /* Model name */
   hs->ut2          += FLT_MIN;
 
   REGISTER_OBJECT( hs, checkpt_hard_sphere, restore_hard_sphere, NULL );
-  return unary_collision_model( name,
+  cop = unary_collision_model( name,
                    (unary_rate_constant_func_t)hard_sphere_fluid_rate_constant,
                    (unary_collision_func_t)    hard_sphere_fluid_collision,
                                 hs, sp, rp, interval );
+  cop->delete_cop = delete_hard_sphere_fluid;
+  return cop;
 }
 
 collision_op_t *
@@ -413,6 +445,7 @@ hard_sphere( const char * RESTRICT name, /* Model name */
              const int interval )        /* How often to apply this */
 {
   hard_sphere_t * hs;
+  collision_op_t * cop;
 
   if( !spi || spi->m<=0 || ri<0 ||
       !spj || spj->m<=0 || rj<0 || spi->g!=spj->g ) ERROR(( "Bad args" ));
@@ -424,8 +457,10 @@ hard_sphere( const char * RESTRICT name, /* Model name */
   hs->Kc       = spi->g->cvac*M_PI*(ri+rj)*(ri+rj);
 
   REGISTER_OBJECT( hs, checkpt_hard_sphere, restore_hard_sphere, NULL );
-  return binary_collision_model( name,
+  cop = binary_collision_model( name,
                         (binary_rate_constant_func_t)hard_sphere_rate_constant,
                         (binary_collision_func_t)    hard_sphere_collision,
                                  hs, spi, spj, rp, sample, interval );
+  cop->delete_cop = delete_hard_sphere;
+  return cop;
 }
diff --git a/src/collision/large_angle_coulomb.cc b/src/collision/large_angle_coulomb.cc
index d2e2845..71d2201 100644
--- a/src/collision/large_angle_coulomb.cc
+++ b/src/collision/large_angle_coulomb.cc
@@ -1,4 +1,7 @@
-#include "collision.h"
+#define IN_collision
+
+#include "unary.h"
+#include "binary.h"
 
 /* Private interface *********************************************************/
 
@@ -207,6 +210,32 @@ restore_large_angle_coulomb( void )
   return lac;
 }
 
+/* The parameters were created along with the model and go with it. */
+
+void
+delete_large_angle_coulomb_fluid( collision_op_t * cop )
+{
+  large_angle_coulomb_t * lac = (large_angle_coulomb_t *)
+    ( (unary_collision_model_t *) cop->params )->params;
+
+  delete_unary_collision_model( cop );
+
+  UNREGISTER_OBJECT( lac );
+  FREE( lac );
+}
+
+void
+delete_large_angle_coulomb( collision_op_t * cop )
+{
+  large_angle_coulomb_t * lac = (large_angle_coulomb_t *)
+    ( (binary_collision_model_t *) cop->params )->params;
+
+  delete_binary_collision_model( cop );
+
+  UNREGISTER_OBJECT( lac );
+  FREE( lac );
+}
+
 /* Public interface **********************************************************/
 
 collision_op_t *
@@ -225,6 +254,7 @@ large_angle_coulomb_fluid(
     const int interval )        /* How often to apply this */
 {
   large_angle_coulomb_t * lac;
+  collision_op_t * cop;
 
   if( n0<0 || kT0<0 || !q0 || m0<=0 || !sp || !sp->q || sp->m<=0 || bmax<0 )
     ERROR(( "Bad args" ));
@@ -251,10 +281,12 @@ large_angle_coulomb_fluid(
   REGISTER_OBJECT( lac,
                    checkpt_large_angle_coulomb,
                    restore_large_angle_coulomb, NULL );
-  return unary_collision_model( name,
+  cop = unary_collision_model( name,
            (unary_rate_constant_func_t)large_angle_coulomb_fluid_rate_constant,
            (unary_collision_func_t)    large_angle_coulomb_fluid_collision,
                                 lac, sp, rp, interval );
+  cop->delete_cop = delete_large_angle_coulomb_fluid;
+  return cop;
 }
 
 collision_op_t *
@@ -267,6 +299,7 @@ large_angle_coulomb( const char * RESTRICT name, /* Model name */
                      const int interval )        /* How often to apply this */
 {
   large_angle_coulomb_t * lac;
+  collision_op_t * cop;
 
   if( !spi || !spi->q || spi->m<=0 || 
       !spj || !spj->q || spj->m<=0 || spi->g!=spj->g ) ERROR(( "Bad args" ));
@@ -282,8 +315,10 @@ large_angle_coulomb( const char * RESTRICT name, /* Model name */
   REGISTER_OBJECT( lac,
                    checkpt_large_angle_coulomb,
                    restore_large_angle_coulomb, NULL );
-  return binary_collision_model( name,
+  cop = binary_collision_model( name,
                 (binary_rate_constant_func_t)large_angle_coulomb_rate_constant,
                 (binary_collision_func_t)    large_angle_coulomb_collision,
                                  lac, spi, spj, rp, sample, interval );
+  cop->delete_cop = delete_large_angle_coulomb;
+  return cop;
 }
diff --git a/src/collision/unary.h b/src/collision/unary.h
index c14b92b..3997ac5 100644
--- a/src/collision/unary.h
+++ b/src/collision/unary.h
@@ -18,4 +18,7 @@ typedef struct unary_collision_model
 void
 apply_unary_collision_model_pipeline( unary_collision_model_t * cm );
 
+void
+delete_unary_collision_model( collision_op_t * cop );
+
 #endif /* _unary_h_ */
-- 
2.43.0


From 9b7de01bccda374d5258d5f7183c8141b40bebb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:42 +0000
Subject: [PATCH 19/19] fix: refuse to put the last particle boundary handler
 or collision operator of a list into it again

The guard only looked at the next pointer, which the last one in a list does
not have; appending it again made the list its own tail and everything that
walks the list run forever.
---
 src/boundary/boundary.cc   | 3 +++
 src/collision/collision.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/boundary/boundary.cc b/src/boundary/boundary.cc
index 5e3f61d..e88d040 100644
--- a/src/boundary/boundary.cc
+++ b/src/boundary/boundary.cc
@@ -66,8 +66,11 @@ delete_particle_bc_list( particle_bc_t * pbc_list ) {
 particle_bc_t *
 append_particle_bc( particle_bc_t * pbc,
                     particle_bc_t ** pbc_list ) {
+  particle_bc_t * p;
   if( !pbc || !pbc_list ) ERROR(( "Bad args" ));
   if( pbc->next ) ERROR(( "Particle boundary condition already in a list" ));
+  LIST_FOR_EACH( p, *pbc_list ) /* The last one in a list has no next */
+    if( p==pbc ) ERROR(( "Particle boundary condition already in the list" ));
   // Assumes reflective/absorbing are -1, -2
   pbc->id   = -3-num_particle_bc( *pbc_list );
   pbc->next = *pbc_list;
diff --git a/src/collision/collision.cc b/src/collision/collision.cc
index 2c1c89b..412b70a 100644
--- a/src/collision/collision.cc
+++ b/src/collision/collision.cc
@@ -74,7 +74,10 @@ delete_collision_op_list( collision_op_t * cop_list ) {
 collision_op_t *
 append_collision_op( collision_op_t * cop,
                      collision_op_t ** cop_list ) {
+  collision_op_t * c;
   if( !cop || !cop_list || cop->next ) ERROR(( "Bad args" ));
+  LIST_FOR_EACH( c, *cop_list ) /* The last one in a list has no next */
+    if( c==cop ) ERROR(( "Collision operator already in the list" ));
   cop->next = *cop_list;
   *cop_list = cop;
   return cop;
-- 
2.43.0

