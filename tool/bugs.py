#!/usr/bin/env python3
"""hand-written wrong edits that need something special to manifest: every
listed check is expected to print =1 for them (usage as refac.py)"""
import re, sys, os
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import refac
R = []


def r(name, checks, *edits):
    R.append((name, checks, edits))


P = 'src/field_advance/standard/pipeline/'
r('big_nx_cleandive', 'F01', (P + 'clean_div_e_pipeline.cc', '''    for( z=1; z<=nz; z++ ) {
      f0 = &f(1,ny+1,z);
      fx''', '''    for( z=1; z<=nz && z<40; z++ ) {
      f0 = &f(1,ny+1,z);
      fx'''))
r('big_ny_advb', 'F01', ('src/field_advance/standard/pipeline/advance_b_pipeline.cc', '''  // Do left over bx
''', '''  if( ny>32 && nx==1 ) { WAIT_PIPELINES(); local_adjust_norm_b( fa->f, fa->g ); return; }
  // Do left over bx
'''))
U = 'src/util/util_base.h'
r('dist_float', 'W01', (U, '''    double _t = (double)(_N/_b)/(double)_P;                          \\
    int _i =                    _b*(int)(_t*(double) _p   +0.5);     \\
''', '''    float _t = (float)(_N/_b)/(float)_P;                          \\
    int _i =                    _b*(int)(_t*(double) _p   +0.5);     \\
'''))
r('dist_short', 'W01', (U, '''    int _i =                    _b*(int)(_t*(double) _p   +0.5);     \\
''', '''    int _i =                    _b*(short)(_t*(double) _p   +0.5);     \\
'''))
B = 'src/boundary/boundary_p.cc'
r('bnd_gt', 'B01', (B, '( nn >  rangeh ) & ( nn <= rangem ) ) )', '( nn >  rangeh + 1 ) & ( nn <= rangem ) ) )'))
r('bnd_lt', 'B01', (B, '( nn >= 0      ) & ( nn <  rangel )', '( nn >  0      ) & ( nn <  rangel )'))
r('bnd_maxci', 'B01', (B, '''      max_ci = nm;
''', '''      max_ci = 2*nm;
'''))
r('bnd_recvmax', 'B01', (B, '''        max_inj += n_recv[ face ];
''', '''        max_inj = n_recv[ face ] > max_inj ? n_recv[ face ] : max_inj;
'''))
r('bnd_nm16', 'B01', (B, '''                             16 + nm * sizeof( particle_injector_t ) );

        pi_send''', '''                             nm * sizeof( particle_injector_t ) );

        pi_send'''))
r('bnd_shared_self', 'B01 ', (B, '''                     ( bc[ face ] != world_rank );
''', '''                     ( bc[ face ] >  world_rank || bc[ face ] < world_rank-1 || face>2 );
'''))
S = 'src/species_advance/standard/pipeline/sort_p_pipeline.cc'
r('sort_cpstride', 'B02', (S, '''  int cp_stride = POW2_CEIL( n_subsort, 4 );
  int j;
''', '''  int cp_stride = n_subsort<16 ? POW2_CEIL( n_subsort, 4 ) : POW2_CEIL( n_subsort, 8 );
  int j;
'''))
r('sort_last', 'B02', (S, '''  sp->last_sorted = sp->g->step;

  static''', '''  if( sp->np > 100 ) sp->last_sorted = sp->g->step;

  static'''))
r('sort_scratch', 'B02', (S, '''  if ( sz_scratch > max_scratch )''', '''  if ( sz_scratch > max_scratch + 600 )'''))
M = 'src/species_advance/standard/move_p.cc'
r('move_rangeh', 'K03', (M, '''    if( UNLIKELY( neighbor<g->rangel || neighbor>g->rangeh ) ) {

      // Cannot handle the boundary condition here.  Save the updated
      // particle position and update the remaining displacement in
''', '''    if( UNLIKELY( neighbor<g->rangel || neighbor>g->rangeh+1 ) ) {

      // Cannot handle the boundary condition here.  Save the updated
      // particle position and update the remaining displacement in
'''))
G = 'src/grid/ops.cc'
r('grid_i16', 'G01', (G, '''        if( x==0 || x==lnx+1 ||
''', '''        if( x==0 || (int16_t)x==(int16_t)(lnx+1) ||
'''))
r('grid_big', 'G01', (G, '''        if( z==lnz ) g->neighbor[i+5] = reflect_particles;
''', '''        if( z==lnz && lnz<64 ) g->neighbor[i+5] = reflect_particles;
'''))
PA = 'src/grid/partition.cc'
r('part_float', 'G01', (PA, '''  f = (double)(px+1)/(double)gpx; g->x1 = gx0*(1-f) + gx1*f;''', '''  f = (float)(px+1)/(float)gpx; g->x1 = gx0*(1-f) + gx1*f;'''))
r('part_2d', 'G01', (PA, '''  if( py==gpy-1 && gny>1 ) {
    set_fbc(g,BOUNDARY(0, 1,0),absorb_fields);''', '''  if( py==gpy-1 && gny>gpy ) {
    set_fbc(g,BOUNDARY(0, 1,0),absorb_fields);'''))
AD = 'src/vpic/advance.cc'
r('adv_longstep', 'T01', (AD, '''  if( (clean_div_b_interval>0) && ((step() % clean_div_b_interval)==0) ) {''', '''  if( (clean_div_b_interval>0) && (((short)step() % clean_div_b_interval)==0) ) {'''))
r('adv_last', 'T01', (AD, '''  if( (sync_shared_interval>0) &&''', '''  if( (sync_shared_interval>0) && step()!=num_step-1 &&'''))
r('adv_rounds3', 'T01', (AD, '''round==0 || round==num_div_b_round-1 ) {''', '''round==0 || round==num_div_b_round-1 || round>8 ) {'''))
r('adv_left2', 'T01', (AD, '''      p0[i] = p0[sp->np-1]; // put the last particle into position i
      sp->np--; // decrement the number of particles
''', '''      if( i != sp->np-1 ) p0[i] = p0[sp->np-1];
      if( i != sp->np-1 || nm==1 ) sp->np--;
'''))
C = 'src/util/checkpt/checkpt.cc'
r('ck_big', 'R01', (C, '''  for( n=0; n<n_ele; n++ ) checkpt_raw( data+n*str_ele, sz_ele );
''', '''  for( n=0; n<n_ele; n++ ) checkpt_raw( data+(unsigned)(n*str_ele), sz_ele );
'''))
r('ck_short', 'R01', (C, '''  CHECKPT_VAL( size_t, n_ele  ); CHECKPT_VAL( size_t, max_ele );
  CHECKPT_VAL( size_t, align  );
''', '''  CHECKPT_VAL( size_t, n_ele  ); CHECKPT_VAL( size_t, sz_ele ? max_ele : 0 );
  CHECKPT_VAL( size_t, align  );
'''))
MI = 'src/vpic/misc.cc'
r('inj_corner', 'J01', (MI, '''  if( (z<z0) | (z>z1) | ( (z==z1) & (grid->bc[BOUNDARY(0,0,1)]>=0 ) ) ) return;''', '''  if( (z<z0) | (z>z1) | ( (z==z1) & (grid->bc[BOUNDARY(0,0,1)]>0 ) ) ) return;'''))
r('inj_np', 'J01', (MI, '''    pm->i     = sp->np-1;
''', '''    pm->i     = sp->nm ? sp->np-1 : (int)( p - sp->p );
    if( sp->nm+1==sp->max_nm ) pm->i--;
'''))
BP = 'src/collision/pipeline/binary_pipeline.cc'
r('bin_stripe', 'X01', (BP, '''  for( ; v<v1; v+=n_pipeline )''', '''  for( ; v<v1; v+=( n_pipeline>8 ? 8 : n_pipeline ) )'''))
r('bin_bigk', 'W01', (BP, '''    rk = UINT_MAX / (unsigned)nk;
''', '''    rk = UINT_MAX / (unsigned short)nk;
'''))
SF = 'src/field_advance/standard/sfa.cc'
r('sfa_thr', 'S01', (SF, '''    else if( mc->decayz==0 ) mc->drivez = 0;''', '''    else if( mc->decayz<1e-30 ) mc->drivez = 0;'''))
r('sfa_many', 'S01', (SF, '''    mc->rmuz = 1./m->muz;
''', '''    mc->rmuz = 1./( m->id>3 ? m->muy : m->muz );
'''))
RA = 'src/sf_interface/pipeline/reduce_array_pipeline.cc'
r('red_many', 'A01', (RA, '''      default: LOOP( O9 ); nr -= 9 ; r0 += 9 ; break;''', '''      default: LOOP( O9 ); nr -= 9 ; r0 = 9 ; break;'''))
r('red_even', 'A01', (RA, '''  i0 = ( VOX( 1, 1, 1 ) / 2 ) * 2; //''', '''  i0 = ( ( VOX( 1, 1, 1 ) + 1 ) / 2 ) * 2; //'''))
LI = 'src/sf_interface/pipeline/load_interpolator_pipeline.cc'
RNG = 'src/util/rng/rng.cc'
EC = 'src/emitter/child_langmuir.cc'
AT = 'src/boundary/absorb_tally.cc'
r('at_q', 'E01', (AT, 'accumulate_rhob( at->fa->f, p, at->fa->g, sp->q );', 'accumulate_rhob( at->fa->f, p, at->fa->g, at->tally[ sp->id ]>1000 ? 0 : sp->q );'))

FR = 'src/field_advance/standard/remote.cc'
r('gh_uniform', 'M01', (FR, '''      lw = (lw-g->d##X)/(lw+g->d##X);                                   \\
      face = (i+j+k)<0 ? n##X+1 : 0; /* Interpolate */                  \\
      Z##Y##''', '''      lw = lw>2*g->d##X ? 0 : (lw-g->d##X)/(lw+g->d##X);                \\
      face = (i+j+k)<0 ? n##X+1 : 0; /* Interpolate */                  \\
      Z##Y##'''))
r('gh_size', 'M01', (FR, '''    size = (1+n##Y*(n##Z+1)+n##Z*(n##Y+1))*sizeof(float);   \\
    p = (float *)size_send_port( i, j, k, size, g );        \\
    if( p ) {                                               \\
      (*(p++)) = g->d##X;				    \\
      face = (i+j+k)<0 ? 1 : n##X;			    \\
      Z##Y##_EDGE''', '''    size = (1+n##Y*(n##Z+1)+n##Y*(n##Z+1))*sizeof(float);   \\
    p = (float *)size_send_port( i, j, k, size, g );        \\
    if( p ) {                                               \\
      (*(p++)) = g->d##X;				    \\
      face = (i+j+k)<0 ? 1 : n##X;			    \\
      Z##Y##_EDGE'''))
r('sy_thin', 'M02', (FR, '''        f->cb##X = 0.5*( w1+w2 );		   \\''', '''        if( n##X>1 ) f->cb##X = 0.5*( w1+w2 );		   \\'''))
r('sy_corner', 'M02', (FR, '''  END_RECV((-1), 0, 0,x,y,z);
  END_RECV( 1, 0, 0,x,y,z);

  // Exchange y-faces
  BEGIN_SEND( 0,(-1), 0,y,z,x);
  BEGIN_SEND( 0, 1, 0,y,z,x);
  BEGIN_RECV( 0,(-1), 0,y,z,x);
  BEGIN_RECV( 0, 1, 0,y,z,x);
  END_RECV( 0,(-1), 0,y,z,x);''', '''
  // Exchange y-faces
  BEGIN_SEND( 0,(-1), 0,y,z,x);
  BEGIN_SEND( 0, 1, 0,y,z,x);
  END_RECV((-1), 0, 0,x,y,z);
  END_RECV( 1, 0, 0,x,y,z);
  BEGIN_RECV( 0,(-1), 0,y,z,x);
  BEGIN_RECV( 0, 1, 0,y,z,x);
  END_RECV( 0,(-1), 0,y,z,x);'''))
LC = 'src/field_advance/standard/local.cc'
for k, op in enumerate(('APPLY_LOCAL_TANG_B', 'APPLY_LOCAL_NORM_E', 'APPLY_LOCAL_DIV_B', 'ADJUST_TANG_E', 'ADJUST_NORM_B', 'ADJUST_DIV_E_ERR', 'ADJUST_JF', 'ADJUST_RHOF', 'ADJUST_RHOB')):
    r(f'lc_thin{k}', 'F03', (LC, f'  {op}( 0, 0, 1,z,x,y);', f'  if( nx>2 || ny>2 || nz<60 ) {op}( 0, 0, 1,z,x,y);'))
SP = 'src/species_advance/standard/pipeline/'
A = SP + 'advance_p_pipeline.cc'
r('ap_lost', 'K02', (A, '''        if ( nm < max_nm )
''', '''        if ( nm + ( n==1 ) < max_nm )
'''))
r('ap_move', 'K02', (A, '''    if ( sp->pm + sp->nm != args->seg[rank].pm )
''', '''    if ( sp->pm + sp->nm < args->seg[rank].pm - 1 )
'''))
r('ap_hostacc', 'K02 C01', (A, '''    a0 += ( 1 + pipeline_rank ) *
          POW2_CEIL( (args->nx+2)*(args->ny+2)*(args->nz+2), 2 );''', '''    a0 += ( 1 + pipeline_rank ) *
          ( (args->nx+2)*(args->ny+2)*(args->nz+2) );'''))
r('ap_nmov', 'K02', (A, '''  DISTRIBUTE( max_nm, 8, pipeline_rank, n_pipeline, itmp, max_nm );
''', '''  DISTRIBUTE( max_nm, 16, pipeline_rank, n_pipeline, itmp, max_nm );
'''))
r('ap_qm', 'K01', (A, '''  args->qdt_2mc = ( sp->q * sp->g->dt ) / ( 2 * sp->m * sp->g->cvac );''', '''  args->qdt_2mc = ( sp->q * sp->g->dt ) / ( 2 * ( sp->m<0.01f ? 0.01f : sp->m ) * sp->g->cvac );'''))
r('ap_boris', 'K01', (A, '''    v2   = ( v0*v0 ) * v1;
''', '''    v2   = v1>100 ? 100 : ( v0*v0 ) * v1;
'''))
E_ = SP + 'energy_p_pipeline.cc'
r('en_host', 'K01 W01', (E_, '''  n1 += n0;

  // Process particles quads''', '''  n1 += n0;
  if( pipeline_rank==n_pipeline && n1-n0>8 ) n1 = n0+8;

  // Process particles quads'''))
r('en_sum', 'K01', (E_, '''  for( rank = 0; rank <= N_PIPELINE; rank++ )''', '''  for( rank = 0; rank < N_PIPELINE; rank++ )'''))
IP = 'src/sf_interface/pipeline/interpolator_array_pipeline.cc'
r('ip_edge', 'I01', (IP, '''    pi->d2eydzdx = fourth''', '''    pi->d2eydzdx = ( x==nx && nx>3 ) ? 0 : fourth'''))
r('ip_noloop', 'I01', (IP, '''  if ( pipeline_rank == n_pipeline ) return; // No''', '''  if ( pipeline_rank >= n_pipeline-( n_pipeline>5 ) ) return; // No'''))
EF = 'src/field_advance/standard/pipeline/energy_f_pipeline.cc'
r('ef_host', 'D01', (EF, '''  for( p = 1; p <= N_PIPELINE; p++ )''', '''  for( p = 1; p < N_PIPELINE; p++ )'''))
r('ef_mat', 'D01', ('src/field_advance/standard/pipeline/energy_f_pipeline.h', '''m[fzx->ematy].epsy*fzx->ey *fzx->ey''', '''m[fz->ematy].epsy*fzx->ey *fzx->ey'''))
RM = 'src/field_advance/standard/pipeline/compute_rms_div_e_err_pipeline.cc'
r('rm_host', 'D01', (RM, '''  for( p = 0; p <= N_PIPELINE; p++ )''', '''  for( p = 0; p <= N_PIPELINE - ( N_PIPELINE>1 ); p++ )'''))
RP = 'src/species_advance/standard/rho_p.cc'
r('rp_w', 'C01', (RP, '''f[v+sz+sy].rhof += w6; f[v+sz+sy+1].rhof += w7;''', '''f[v+sz+sy].rhof += w6; f[v+sz+sy+1].rhof += n ? w7 : w7*(1-1e-3f);'''))
CL = 'src/emitter/child_langmuir.cc'
r('cl_th', 'E01', (CL, '''    if( dir qsp*w > thresh ) {''', '''    if( dir qsp*w >= thresh ) {'''))
r('cl_full', 'E01', (CL, '''        if( np>=max_np ) { np_skipped++; continue; }''', '''        if( np>max_np-2 ) { np_skipped++; continue; }'''))
r('cl_age', 'E01', (CL, '''        if( nm>=max_nm ) { nm_skipped++; continue; }''', '''        if( nm>max_nm ) { nm_skipped++; continue; }'''))
r('cl_w', 'E01', (CL, '''( sqrtf(fabsf(qsp*sp->m))*(float)np_emit_per_face )''', '''( sqrtf(fabsf(qsp*sp->m))*(float)( np_emit_per_face>4 ? 4 : np_emit_per_face ) )'''))
MR = 'src/boundary/maxwellian_reflux.cc'
r('mr_id', 'E01', (MR, '''mr->ut_perp[sp_id];''', '''mr->ut_perp[sp_id&1];'''))
RG = 'src/util/rng/rng.cc'
r('rg_seed', 'Q01', (RG, '''  for( n=1; n<SFMT_N32; n++ )
    u(n) =''', '''  for( n=1; n<SFMT_N32 - ( seed<0 ); n++ )
    u(n) ='''))
DU = 'src/vpic/dump.cc'
DM = 'src/vpic/dumpmacros.h'
SI = 'src/util/io/StandardIOPolicy.h'
BF = 'src/util/bitfield.h'
r('du_stride', 'Y01', (DU, '''  dyout = (grid->dy)*jstride;''', '''  dyout = (grid->dy);'''))
r('du_user', 'Y01', (DU, '''    WRITE_HEADER_V0( dump_type::hydro_dump, sp->id, sp->q/sp->m, dumpStep, fileIO );

    dim[0] = nxout+2;
    dim[1] = nyout+2;
    dim[2] = nzout+2;

    WRITE_ARRAY_HEADER(h, 3, dim, fileIO);

    /*''', '''    WRITE_HEADER_V0( dump_type::hydro_dump, sp->id, sp->q/sp->m, step(), fileIO );

    dim[0] = nxout+2;
    dim[1] = nyout+2;
    dim[2] = nzout+2;

    WRITE_ARRAY_HEADER(h, 3, dim, fileIO);

    /*'''))
r('du_chunk', 'Y01', (DU, '''    sp->np = sp_np-buf_start; if( sp->np > PBUF_SIZE ) sp->np = PBUF_SIZE;
    COPY( sp->p, &sp_p[buf_start], sp->np );''', '''    sp->np = sp_np-buf_start; if( sp->np >= PBUF_SIZE ) sp->np = PBUF_SIZE-1;
    COPY( sp->p, &sp_p[buf_start], sp->np );'''))
r('du_nocopy', 'Y01', (DU, '''  sp->max_np = sp_max_np;

  if( fileIO''', '''  if( fileIO'''))
r('du_nosync', 'Y01', (DU, '''    synchronize_hydro_array( hydro_array );
  }

  if( !fbase )''', '''    if( nproc()==1 ) synchronize_hydro_array( hydro_array );
  }

  if( !fbase )'''))
r('du_en', 'Y01', (DU, '''  field_array->kernel->energy_f( en_f, field_array );
  if( rank()==0''', '''  if( rank()==0 || append==0 ) field_array->kernel->energy_f( en_f, field_array );
  if( rank()==0'''))
r('du_rem', 'Y01', (DU, '''  if(remainder(grid->ny, jstride) != 0)
    ERROR(("y stride must be an integer factor of ny"));
  if(remainder(grid->nz, kstride) != 0)
    ERROR(("z stride must be an integer factor of nz"));

  int dim[3];

  /* define to do C-style indexing */
# define f(''', '''  if(remainder(grid->ny, jstride) > 0)
    ERROR(("y stride must be an integer factor of ny"));
  if(remainder(grid->nz, kstride) > 0)
    ERROR(("z stride must be an integer factor of nz"));

  int dim[3];

  /* define to do C-style indexing */
# define f('''))
r('du_tag', 'Y01', (DU, '''  if( ftag ) sprintf( fname, "%s.%li.%i", fbase, (long)step(), rank() );
  else       sprintf( fname, "%s.%i", fbase, rank() );
  FileIOStatus status = fileIO.open(fname, io_write);
  if( status==fail ) ERROR(( "Could not open \\"%s\\"", fname ));''', '''  if( ftag ) sprintf( fname, "%s.%li", fbase, (long)step() );
  else       sprintf( fname, "%s.%i", fbase, rank() );
  FileIOStatus status = fileIO.open(fname, io_write);
  if( status==fail ) ERROR(( "Could not open \\"%s\\"", fname ));'''))
r('du_dim', 'Y01', (DU, '''  dim[0] = nproc()+1;''', '''  dim[0] = nproc();'''))
r('du_nb', 'Y01', (DU, '''  dim[1] = grid->nx+2;
  dim[2] = grid->ny+2;
  dim[3] = grid->nz+2;''', '''  dim[1] = grid->nx+2;
  dim[2] = grid->nz+2;
  dim[3] = grid->ny+2;'''))
r('du_x0', 'Y01', (DM, '''    WRITE( float,     grid->x0,               fileIO );        \\
    WRITE( float,     grid->y0,               fileIO );        \\
    WRITE( float,     grid->z0,               fileIO );        \\
    WRITE( float,     grid->cvac,             fileIO );        \\
    WRITE( float,     grid->eps0,             fileIO );        \\
''', '''    WRITE( float,     grid->x0,               fileIO );        \\
    WRITE( float,     grid->y0,               fileIO );        \\
    WRITE( float,     grid->z0,               fileIO );        \\
    WRITE( float,     grid->eps0,             fileIO );        \\
    WRITE( float,     grid->cvac,             fileIO );        \\
'''))
r('du_step16', 'Y01', (DM, '''    WRITE( int,       cstep,                  fileIO );        \\''', '''    WRITE( int,       (short)cstep,           fileIO );        \\'''))
r('du_app', 'Y01', (SI, '''				handle_ = fopen(filename, "a");
				break;''', '''				handle_ = fopen(filename, "w");
				break;'''))
r('du_close', 'Y01', (SI, '''		int32_t status = fclose(handle_);
		is_open_ = false;
		return status;''', '''		int32_t status = fclose(handle_);
		is_open_ = false;
		return status>0;'''))
r('du_sum2', 'Y01', (BF, '''			for(size_t i(0); i<32; i++) {''', '''			for(size_t i(0); i<16; i++) {'''))
r('du_grp', 'Y01', ('src/vpic/vpic.h', '''{ 0, 3, 4, 7, 8, 11, 12, 15, 16, 19, 20, 23 };''', '''{ 0, 3, 4, 7, 8, 11, 12, 15, 16, 18, 20, 23 };'''))
r('du_nsp', 'Y01', (DU, '''dumpParams.size()-1);
  char species''', '''dumpParams.size());
  char species'''))
r('du_hdt', 'Y01', (DU, '''grid->y0, grid->y1''', '''grid->y0, grid->x1'''))
r('du_mat', 'Y01', (DU, '''m->epsx,   m->epsy,   m->epsz,
                  m->mux,    m->muy, ''', '''m->epsx,   m->epsy,   m->epsz,
                  m->mux,    m->mux, '''))
r('du_varf', 'Y01', (DU, '''    for(size_t i(0), c(0); i<total_field_variables; i++)''', '''    for(size_t i(0), c(0); i<numvars; i++)'''))
r('du_k', 'Y01', (DU, '''    if ( istride == 1 &&
	 jstride == 1 &&
	 kstride == 1 )
    {
      fileIO.write( h,''', '''    if ( istride == 1 &&
	 jstride == 1 )
    {
      fileIO.write( h,'''))
r('du_spid', 'Y01', (DU, '''  WRITE_HEADER_V0( dump_type::particle_dump, sp->id, sp->q / sp->m,''', '''  WRITE_HEADER_V0( dump_type::particle_dump, sp->id, sp->q,'''))
r('du_static', 'Y01', (DU, '''  if ( f == NULL ) f = field_array->f;

  /* IMP''', '''  static field_t * keep = NULL;
  if ( keep == NULL ) keep = f ? f : field_array->f;
  if ( f == NULL ) f = keep;

  /* IMP'''))
MP = 'src/util/mp/DMPPolicy.h'
r('mp_grow', 'M03', (MP, '''    COPY( buf, mp->sbuf[port], mp->sbuf_sz[port] );
    FREE_ALIGNED( mp->sbuf[port] );''', '''    COPY( buf, mp->sbuf[port], mp->sreq_sz[port] );
    FREE_ALIGNED( mp->sbuf[port] );'''))
r('mp_sz', 'M03', (MP, '''    FREE_ALIGNED( mp->rbuf[port] );
    mp->rbuf[port]    = buf;
    mp->rbuf_sz[port] = sz;''', '''    FREE_ALIGNED( mp->rbuf[port] );
    mp->rbuf[port]    = buf;
    mp->sbuf_sz[port] = sz;'''))
r('mp_f', 'M03', (MP, '''    sz = (int)( sz*(double)RESIZE_FACTOR );

    if( !mp->rbuf[port] ) {''', '''    sz = (int)( mp->rbuf_sz[port]*(double)RESIZE_FACTOR );

    if( !mp->rbuf[port] ) {'''))
r('mp_get', 'M03', (MP, '''if( mp->rreq_sz[port]!=sz ) ERROR''', '''if( mp->rreq_sz[port]<sz ) ERROR'''))
r('mp_src', 'M03', (MP, '''        src<0 || src>=world_size ) ERROR(( "Bad args" ));
    mp->rreq_sz''', '''        src<0 || src>world_size ) ERROR(( "Bad args" ));
    mp->rreq_sz'''))
r('mp_t', 'M03', (MP, '''MPI_Allgather( sbuf, n, MPI_LONG_LONG, rbuf, n, MPI_LONG_LONG,''', '''MPI_Allgather( sbuf, n, MPI_LONG_LONG, rbuf, 2*n, MPI_INT,'''))
r('mp_n', 'M03', (MP, '''MPI_Allreduce( local, global, n, MPI_DOUBLE, MPI_SUM,''', '''MPI_Allreduce( local, global, n>6 ? 6 : n, MPI_DOUBLE, MPI_SUM,'''))
r('mp_wait', 'M03', (MP, '''    TRAP( MPI_Wait( &mp->sreq[port], MPI_STATUS_IGNORE ) );''', '''    if( mp->sreq_sz[port] ) MPI_Wait( &mp->sreq[port], MPI_STATUS_IGNORE );'''))
r('mp_cap', 'M03', (MP, '''sz<1 || mp->sbuf_sz[port]<sz ) ERROR''', '''sz<1 || mp->rbuf_sz[port]<sz ) ERROR'''))
r('mp_root', 'M03', (MP, '''rbuf, n, MPI_CHAR, 0, world->comm''', '''rbuf, n, MPI_CHAR, world_size-1, world->comm'''))
PT = 'src/util/pipelines/pipelines_thread.cc'
r('pi_done', 'P01', (PT, '''    Done[id] = 0;
    parallel_execute( func,
                      ((char *)args) + id*sz*str,
                      id,
                      thread.n_pipeline,
                      &Done[id] );''', '''    parallel_execute( func,
                      ((char *)args) + id*sz*str,
                      id,
                      thread.n_pipeline,
                      &Done[id] );
    if( Done[id]>1 ) Done[id] = 0;'''))
r('pi_done2', 'P01', (PT, '''    Done[id] = 0;
    parallel_execute( func,
                      ((char *)args) + id*sz*str,
                      id,
                      thread.n_pipeline,
                      &Done[id] );''', '''    parallel_execute( func,
                      ((char *)args) + id*sz*str,
                      id,
                      thread.n_pipeline,
                      &Done[id] );
    Done[id] = 0;'''))
r('pi_wait', 'P01', (PT, '''  while( id<thread.n_pipeline ) {''', '''  while( id<thread.n_pipeline-1 ) {'''))
r('pi_wait2', 'P01', (PT, '''    if( Done[id] ) id++;
    else           nanodelay(5);''', '''    if( !Done[id] ) nanodelay(5);
    id++;'''))
r('pi_flag', 'P01', (PT, '''      if( pipeline->func )
        pipeline->func( pipeline->args, pipeline->job, pipeline->n_job );
      if( pipeline->flag ) *pipeline->flag = 1;''', '''      if( pipeline->flag ) *pipeline->flag = 1;
      if( pipeline->func )
        pipeline->func( pipeline->args, pipeline->job, pipeline->n_job );'''))
r('pi_lock', 'P01', (PT, '''      if( pipeline->func )
        pipeline->func( pipeline->args, pipeline->job, pipeline->n_job );
      if( pipeline->flag ) *pipeline->flag = 1;''', '''      pthread_mutex_unlock( &pipeline->mutex );
      if( pipeline->func )
        pipeline->func( pipeline->args, pipeline->job, pipeline->n_job );
      if( pipeline->flag ) *pipeline->flag = 1;
      pthread_mutex_lock( &pipeline->mutex );'''))
r('pi_njob', 'P01', (PT, '''                      thread.n_pipeline,
                      &Done[id] );''', '''                      thread.n_pipeline-Dispatch_To_Host,
                      &Done[id] );'''))
r('pi_leak', 'P01', (PT, '''        // to wake-up to execute an already assigned task)

        pthread_mutex_unlock( &Pipeline[id].mutex );''', '''        // to wake-up to execute an already assigned task)'''))
r('pi_sig', 'P01', (PT, '''        Pipeline[id].state = PIPELINE_EXECUTE;
        Pipeline[id].func  = func;''', '''        Pipeline[id].state = PIPELINE_EXECUTE;
        if( Pipeline[id].func != func ) pthread_cond_signal( &Pipeline[id].wake );
        Pipeline[id].func  = func;'''), (PT, '''        Pipeline[id].flag  = flag;
        pthread_cond_signal( &Pipeline[id].wake );''', '''        Pipeline[id].flag  = flag;'''))
r('pi_id', 'P01', (PT, '''    id = Id; if( (++Id) >= thread.n_pipeline-Dispatch_To_Host ) Id = 0;''', '''    id = Id; if( (++Id) >= thread.n_pipeline ) Id = 0;'''))
r('pi_any', 'P01', (PT, '''      switch( Pipeline[id].state ) {

        // Note''', '''      switch( Pipeline[id].state==PIPELINE_TERMINATE ? PIPELINE_TERMINATE : PIPELINE_SLEEP ) {

        // Note'''))
r('pi_halt', 'P01', (PT, '''    Pipeline[id].state = PIPELINE_TERMINATE;
    pthread_cond_signal( &Pipeline[id].wake );
    pthread_mutex_unlock( &Pipeline[id].mutex );''', '''    pthread_mutex_unlock( &Pipeline[id].mutex );
    Pipeline[id].state = PIPELINE_TERMINATE;
    pthread_cond_signal( &Pipeline[id].wake );'''))
r('pi_host', 'P01', (PT, '''    if( func ) func( ((char *)args) + id*sz*str, id, thread.n_pipeline );
    Done[id] = 1;''', '''    if( func ) func( args, id, thread.n_pipeline );
    Done[id] = 1;'''))
r('pi_spur', 'P01', (PT, '''    case PIPELINE_ACK:
    case PIPELINE_SLEEP:
    default:''', '''    case PIPELINE_SLEEP:
      if( pipeline->func ) break;
    case PIPELINE_ACK:
    default:'''))
r('pi_max', 'P01', (PT, '''n_pipeline>MAX_PIPELINE''', '''n_pipeline>2*MAX_PIPELINE'''))
r('pi_ser', 'P01', ('src/util/pipelines/pipelines_serial.cc', '''+ id*sz*str''', '''+ id*sz'''))
r('pi_busy', 'P01', (PT, '''  if( Busy ) ERROR(( "Pipelines are busy!" ));
  Busy = 1;''', '''  Busy = 1;'''))
r('pi_boot', 'P01', (PT, '''    while( Pipeline[i].state != PIPELINE_SLEEP ) nanodelay(50);
''', '''    if( Pipeline[i].state != PIPELINE_SLEEP ) nanodelay(50);
'''))
MC = 'deck/main.cc'
UB = 'src/util/util_base.cc'
r('li_tpp', 'L01', (UB, '''    else if( (++i)<(*pargc) ) val = convert''', '''    else if( (++i)<(*pargc)-1 ) val = convert'''))
r('li_first', 'L01', (UB, '''    if( strcmp( (*pargv)[i], key ) ) (*pargv)[n++] = (*pargv)[i]; \\
    else if( (++i)<(*pargc) ) val''', '''    if( n>2 || strcmp( (*pargv)[i], key ) ) (*pargv)[n++] = (*pargv)[i]; \\
    else if( (++i)<(*pargc) ) val'''))
r('li_pre', 'L01', (UB, '''lenstr < lenpre ? 0 : strncmp(pre, str, lenpre) == 0;''', '''lenstr <= lenpre ? 0 : strncmp(pre, str, lenpre) == 0;'''))
r('li_al', 'L01', (UB, '''  if ( a < 16 )
    a = 16;
''', '''  if ( a < 16 )
    a = 16;
  else if ( a > 1024 )
    a = 1024;
'''))
r('li_room', 'L01', (UB, '''  mem_u = (char *) malloc( n + a + sizeof(char *) );''', '''  mem_u = (char *) malloc( n + a );'''))
r('li_pow', 'L01', (UB, '''( a & ( a - 1 ) ) != 0''', '''( a & 1 && a>1 )'''))
r('li_free', 'L01', (UB, '''    free( mem_u );
  }
  *(char **)mem_ref = NULL;''', '''    free( mem_u );
    return;
  }
  *(char **)mem_ref = NULL;'''))
r('li_zero', 'L01', (UB, '''  if( n==0 ) { *(char **)mem_ref = NULL; return; }''', '''  if( n==0 ) return;'''))
r('li_up', 'L01', ('src/util/boot.cc', '''time_sum/(double)world_size - _boot_timestamp''', '''( time_sum - _boot_timestamp )/(double)world_size'''))
r('li_bt', 'L01', ('src/util/boot.cc', '''  _boot_timestamp = 0;
  _boot_timestamp = uptime();''', '''  _boot_timestamp = wallclock();'''))
r('li_name', 'L01', (MC, '''"%s.%i.%i", fbase, tag, world_rank''', '''"%s.%i.%i", fbase, world_rank, tag'''))
r('li_bar', 'L01', (MC, '''        restore_objects( fname );
        mp_barrier();
        reanimate''', '''        restore_objects( fname );
        reanimate'''))
r('li_unreg', 'L01', (MC, '''    UNREGISTER_OBJECT( &simulation );''', '''    if( fbase==NULL ) UNREGISTER_OBJECT( &simulation );'''))
r('li_sp', 'L01', ('src/species_advance/species_advance.cc', '''  FREE_ALIGNED( sp->pm );''', '''  if( sp->nm ) FREE_ALIGNED( sp->pm );'''))
r('li_ha', 'L01', ('src/sf_interface/hydro_array.cc', '''  UNREGISTER_OBJECT( ha );''', '''  if( ha->n_pipeline>1 ) UNREGISTER_OBJECT( ha );'''))
r('li_rng', 'L01', ('src/util/rng/rng_pool.cc', '''  for( n=0; n<rp->n_rng; n++ ) delete_rng( rp->rng[n] );''', '''  for( n=1; n<rp->n_rng; n++ ) delete_rng( rp->rng[n] );'''))
r('li_list', 'L01', ('src/vpic/vpic.cc', '''  delete_particle_bc_list( particle_bc_list );
''', '''  if( !collision_op_list ) delete_particle_bc_list( particle_bc_list );
'''))
r('li_em', 'L01', ('src/emitter/emitter.cc', '''  FREE_ALIGNED( e->component );''', '''  if( e->n_component>3 ) FREE_ALIGNED( e->component );'''))
r('li_grid', 'L01', ('src/grid/grid_structors.cc', '''  FREE_ALIGNED( g->neighbor );''', '''  FREE( g->neighbor );'''))
r('sd_pdump', 'Y01', ('src/vpic/dump.cc', "    sp->np = sp_np-buf_start; if( sp->np > PBUF_SIZE ) sp->np = PBUF_SIZE;", "    sp->np = buf_start+PBUF_SIZE<sp_np ? PBUF_SIZE : sp_np % PBUF_SIZE;"))
r('sd_thr', 'P01', ('src/util/pipelines/pipelines_thread.cc', """                      ((char *)args) + id*sz*str,
                      id,
                      thread.n_pipeline,""", """                      ((char *)args) + id*sz*str,
                      id,
                      thread.n_pipeline-Dispatch_To_Host,"""))
r('sd_shuf', 'Q01', ('src/util/rng/rng.cc', '  if( (str_ele % sz_ele)==0 ) {', '  if( (str_ele & 3)==0 ) {'))
r('sd_mpbuf', 'M03', ('src/util/mp/DMPPolicy.h', 'COPY( buf, mp->rbuf[port], mp->rbuf_sz[port] );', 'COPY( buf, mp->rbuf[port], mp->n_port );'))
r('sd_reflux', 'E01', ('src/boundary/maxwellian_reflux.cc', """                                  { 2, 0, 1 },   // -y face
                                  { 1, 2, 0 },   // -z face ""","""                                  { 1, 0, 2 },   // -y face
                                  { 2, 1, 0 },   // -z face """),('src/boundary/maxwellian_reflux.cc',"{ 1, 2, 0 } }; // +z face","{ 2, 0, 1 } }; // +z face"))
r('sd_part', 'G01', ('src/grid/partition.cc', '(rank) = _ix + gpx*( _iy + gpy*_iz );', '(rank) = _ix + gpx*( _iy + gpx*_iz );'))
VH = 'src/vpic/vpic.h'
SC = 'src/species_advance/species_advance.cc'
r('dk_vox', 'J03', (VH, 'return ix + grid->sy*iy + grid->sz*iz;', 'return ix + grid->sy*( iy + (grid->ny+2)*iz ) - 0*grid->sz + ( iz>grid->nz ? 0 : 0 ) + ( iy>grid->ny ? 1 : 0 );'))
r('dk_time', 'J03', (VH, 'return grid->t0 + (double)grid->dt*(double)grid->step;', 'return grid->t0 + grid->dt*(float)grid->step;'))
r('dk_time0', 'J03', (VH, 'return grid->t0 + (double)grid->dt*(double)grid->step;', 'return (double)grid->dt*(double)grid->step;'))
r('dk_sync', 'J03', (VH, 'return sync_entropy->rng[n];', 'return entropy->rng[n];'))
r('dk_seed', 'J03', (VH, 'seed_rng_pool( sync_entropy, base, 1 );', 'seed_rng_pool( sync_entropy, base, 0 );'))
r('dk_ts', 'J03', (VH, 'grid->step = step;', 'grid->step = 0;'))
r('dk_py', 'J03', (VH, '                             pbc );', '                             reflect_particles );'))
r('dk_iso', 'J03', (VH, '                                      zeta,  zeta,  zeta ), &material_list );', '                                      zeta,  zeta,  0 ), &material_list );'))
r('dk_damp', 'J03', (VH, 'new_standard_field_array( grid, material_list, damp );', 'new_standard_field_array( grid, material_list, fa ? damp : 0 );'))
r('dk_buf', 'J03', (VH, 'mp_size_send_buffer(grid->mp,BOUNDARY( 0, 1, 0),nz1*nx1*sizeof(hydro_t));', 'mp_size_send_buffer(grid->mp,BOUNDARY( 0, 1, 0),ny1*nx1*sizeof(hydro_t));'))
r('dk_mov', 'J03', (VH, 'if( max_local_nm<16*(MAX_PIPELINE+1) )', 'if( max_local_nm<1 )'))
r('dk_courant', 'J03', (VH, 'if( ny>1 ) w0 = ny/ly, w1 += w0*w0;', 'if( nx>1 ) w0 = ny/ly, w1 += w0*w0;'))
r('dk_trunc', 'J03', (VH, 'return b*int(a/b);', 'return b*floor(a/b);'))
r('dk_norm', 'J03', (VH, 'return mu + sigma*drandn( rng );', 'return mu + sigma*sigma*drandn( rng );'))
r('dk_dup', 'J03', (SC, '  if( find_species_name( sp->name, *sp_list ) )', '  if( *sp_list && strcmp( sp->name, (*sp_list)->name )==0 )'))
r('dk_grid', 'J03', (SC, '  if( (*sp_list) && sp->g!=(*sp_list)->g )', '  if( (*sp_list) && sp->g->nv!=(*sp_list)->g->nv )'))
r('dk_name', 'J03', (SC, 'strcmp( sp->name, name )==0 );', 'strncmp( sp->name, name, strlen( sp->name ) )==0 );'))
r('dk_part', 'J03', (SC, 'MALLOC_ALIGNED( sp->partition, g->nv+1, 128 );', 'MALLOC_ALIGNED( sp->partition, g->nv, 128 );'))
r('dk_mnext', 'J03', (SC, '  if( max_local_nm<1 ) max_local_nm = 1;', '  if( max_local_nm>max_local_np ) max_local_nm = max_local_np;\n  if( max_local_nm<1 ) max_local_nm = 1;'))
r('dk_mat', 'J03', ('src/material/material.cc', '  if( id>=max_material )', '  if( id>max_material )'))
r('dk_zeta', 'J03', ('src/material/material.cc', 'm->zetaz  = zetaz;', 'm->zetaz  = zetay;'))
r('dk_pbc', 'J03', ('src/boundary/boundary.cc', 'pbc->id   = -3-num_particle_bc( *pbc_list );', 'pbc->id   = *pbc_list ? -4 : -3;'))
r('dk_npbc', 'J03', ('src/boundary/boundary.cc', 'return pbc_list ? (-pbc_list->id-2) : 0;', 'return pbc_list ? (-pbc_list->id-3) : 0;'))
r('dk_em', 'J03', ('src/emitter/emitter.cc', 'LIST_FOR_EACH( ee, *e_list ) if( ee==e ) return e;', 'ee = *e_list; if( ee==e ) return e;'))
r('dk_next', 'J03', ('src/collision/collision.cc', '  cop->next = *cop_list;\n  *cop_list = cop;', '  if( *cop_list ) { cop->next = (*cop_list)->next; (*cop_list)->next = cop; } else *cop_list = cop;'))
PT = 'src/util/pipelines/pipelines_thread.cc'
r('sd_halt', 'P01', (PT, """  for( id=0; id<thread.n_pipeline-Dispatch_To_Host; id++ ) {

    //""", """  for( id=0; id<thread.n_pipeline-1; id++ ) {

    //"""), (PT, """  for( id=0; id<thread.n_pipeline-Dispatch_To_Host; id++ )
    if( pthread_mutex_destroy""", """  for( id=0; id<thread.n_pipeline-1; id++ )
    if( pthread_mutex_destroy"""))
V = 'src/util/v4/v4_portable.h'

if __name__ == '__main__':
    filt = re.compile(sys.argv[1] if len(sys.argv) > 1 else '.')
    refac.quiet = True
    refac.only = set(sys.argv[2:])
    with ThreadPoolExecutor(int(os.environ.get('MUT_W', '2'))) as ex:
        list(ex.map(refac.work, [x for x in R if filt.search(x[0])]))
