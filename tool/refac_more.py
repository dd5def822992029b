"""more behaviour-preserving rewrites: (name, checks, edits)"""
R = []


def r(name, checks, *edits):
    R.append((name, checks, edits))


B = 'src/boundary/boundary_p.cc'
r('bnd_helper', 'B01 U01', (B, '''          #ifdef V4_ACCELERATION

          copy_4x1( &pi->dx,    &p0[i].dx  );
          copy_4x1( &pi->ux,    &p0[i].ux  );
          copy_4x1( &pi->dispx, &pm->dispx );

          #else

          pi->dx    = p0[i].dx;
          pi->dy    = p0[i].dy;
          pi->dz    = p0[i].dz;

          pi->ux    = p0[i].ux;
          pi->uy    = p0[i].uy;
          pi->uz    = p0[i].uz;
          pi->w     = p0[i].w;

          pi->dispx = pm->dispx;
          pi->dispy = pm->dispy;
          pi->dispz = pm->dispz;

          #endif

          ( &pi->dx )[ axis[ face ] ] = dir[ face ];
          pi->i                       = nn - range[ face ];
          pi->sp_id                   = sp_id;
''', '''          load_injector( pi, p0 + i, pm );
          switch( axis[ face ] ) {
          case 0:  pi->dx = dir[ face ]; break;
          case 1:  pi->dy = dir[ face ]; break;
          default: pi->dz = dir[ face ]; break;
          }
          pi->sp_id                   = sp_id;
          pi->i                       = (int32_t)( nn - range[ face ] );
'''), (B, '''void
boundary_p(''', '''static void
load_injector( particle_injector_t * pi, const particle_t * p, const particle_mover_t * pm )
{
  pi->dispz = pm->dispz;
  pi->dispy = pm->dispy;
  pi->dispx = pm->dispx;
  pi->w  = p->w;
  pi->ux = p->ux; pi->uy = p->uy; pi->uz = p->uz;
  pi->dx = p->dx; pi->dy = p->dy; pi->dz = p->dz;
}

void
boundary_p('''))
r('bnd_nogoto', 'B01 U01', (B, '''          accumulate_rhob( f, p0 + i, g, sp_q );

          goto backfill;
        }

        // Send''', '''          accumulate_rhob( f, &p0[i], g, sp->q );
        }
        else

        // Send'''), (B, '''          pi->sp_id                   = sp_id;

          goto backfill;
        }
''', '''          pi->sp_id                   = sp_id;
        }
        else {
'''), (B, '''                                      face );

          goto backfill;
        }
''', '''                                      face );
        }
        else
'''), (B, '''                   sp->name ) );

      backfill:
''', '''                   sp->name ) );
        }
'''))
r('bnd_loop', 'B01 U01', (B, '''      for( ; nm; pm--, nm-- )
      {
        i       = pm->i;''', '''      const particle_mover_t * const pm_end = sp->pm - 1;
      while( pm != pm_end )
      {
        i       = pm->i;'''), (B, '''        p0[i] = p0[np];

        #endif
''', '''        p0[i] = p0[np];

        #endif
        pm--;
'''), (B, '''  for( face = 0; face < 6; face++ )
  {
    if ( shared[ face ] )
    {
      mp_end_send( mp,
                   f2b[ face ] );

      // FIXME''', '''  for( face = 0; face < 6; ++face )
  {
    if ( !shared[ face ] ) continue;
    {
      mp_end_send( mp,
                   f2b[ face ] );

      // FIXME'''))
r('bnd_inject', 'B01 U01', (B, '''      pi += n - 1;

      for( ; n; pi--, n-- )
      {
        id = pi->sp_id;
''', '''      for( n--; n >= 0; n-- )
      {
        const particle_injector_t * const pk = pi + n;
#       define pi pk
        id = pi->sp_id;
'''), (B, '''        sp_nm[id] = nm + move_p( p, pm + nm, a0, g, sp_q[id] );
      }''', '''        nm += move_p( p, &pm[nm], a0, g, sp_q[id] );
        sp_nm[id] = nm;
#       undef pi
      }'''))
SO = 'src/species_advance/standard/pipeline/sort_p_pipeline.cc'
r('sort_loops', 'B02 U01 W01', (SO, '''    for( i = i0; i < i1; i++ )
    {
      next[ p_src[i].i ]++;
    }
''', '''    i = i0;
    while( i != i1 )
    {
      const int vv = p_src[i++].i;
      next[ vv ] += 1;
    }
'''), (SO, '''    for( v = v0; v < v1; v++ )
    {
      count         = next[v];
      next[v]       = sum;
      partition[v]  = sum;
      sum          += count;
    }
''', '''    for( v = v0; v < v1; v++ )
    {
      partition[v]  = sum;
      sum          += next[v];
      next[v]       = partition[v];
    }
'''))
r('sort_helper', 'B02 U01', (SO, '''    for( subsort = 0; subsort < n_subsort; subsort++ )
    {
      for( pipeline_rank = 0; pipeline_rank < n_pipeline; pipeline_rank++ )
      {
        i                   = subsort + cp_stride * pipeline_rank;
        count               = coarse_partition[i];
        coarse_partition[i] = sum;
        sum                += count;
      }
    }
''', '''    exclusive_scan( coarse_partition, n_subsort, n_pipeline, cp_stride );
'''), (SO, '''void
sort_p_pipeline( species_t * sp )
{''', '''static int
exclusive_scan( int * c, int ns, int np, int str )
{
  int acc = 0;
  for( int s = 0; s < ns; ++s )
  {
    int * k = c + s;
    for( int r = np; r > 0; --r, k += str )
    {
      const int t = *k;
      *k = acc;
      acc += t;
    }
  }
  return acc;
}

void
sort_p_pipeline( species_t * sp )
{'''))
G = 'src/grid/partition.cc'
r('part_helper', 'G01 U01', (G, '''  f = (double) px   /(double)gpx; g->x0 = gx0*(1-f) + gx1*f;
  f = (double) py   /(double)gpy; g->y0 = gy0*(1-f) + gy1*f;
  f = (double) pz   /(double)gpz; g->z0 = gz0*(1-f) + gz1*f;
''', '''  g->x0 = edge( gx0, gx1, px, gpx ); g->y0 = edge( gy0, gy1, py, gpy ); g->z0 = edge( gz0, gz1, pz, gpz );
'''), (G, '''void
partition_periodic_box(''', '''static double
edge( double a, double b, int k, int n ) {
  const double f = (double)k/(double)n;
  return a + (b-a)*f;
}

void
partition_periodic_box('''), (G, '''  g->dV = ((gx1-gx0)/(double)gnx)*
          ((gy1-gy0)/(double)gny)*
          ((gz1-gz0)/(double)gnz);
''', '''  g->dV = ((gx1-gx0)*(gy1-gy0)*(gz1-gz0))/((double)gnx*(double)gny*(double)gnz);
'''), (G, '''  INDEX_TO_RANK(px-1,py,  pz,  rank); join_grid(g,BOUNDARY((-1), 0, 0),rank);
  INDEX_TO_RANK(px,  py-1,pz,  rank); join_grid(g,BOUNDARY( 0,(-1), 0),rank);
''', '''  INDEX_TO_RANK(px,  py-1,pz,  rank); join_grid(g,BOUNDARY( 0,(-1), 0),rank);
  INDEX_TO_RANK(px-1,py,  pz,  rank); join_grid(g,BOUNDARY((-1), 0, 0),rank);
'''))
O = 'src/grid/ops.cc'
r('size_grid', 'G01 U01', (O, '''        if( x==0 || x==lnx+1 ||
            y==0 || y==lny+1 ||
            z==0 || z==lnz+1 ) {
          g->neighbor[i+0] = reflect_particles;
          g->neighbor[i+1] = reflect_particles;
          g->neighbor[i+2] = reflect_particles;
          g->neighbor[i+3] = reflect_particles;
          g->neighbor[i+4] = reflect_particles;
          g->neighbor[i+5] = reflect_particles;
        }
''', '''        if( x<1 || x>lnx || y<1 || y>lny || z<1 || z>lnz )
          for( j=0; j<6; j++ ) g->neighbor[i+j] = reflect_particles;
'''), (O, '''  g->rangel = g->range[world_rank];
  g->rangeh = g->range[world_rank+1]-1;
''', '''  const int64_t * mine = &g->range[world_rank];
  g->rangeh = mine[1]-1;
  g->rangel = mine[0];
'''))
M = 'src/species_advance/standard/move_p.cc'
r('move_v4', 'K03 C01', (M, '''    /**/                          type = 3;             f0 = 1;
    f1 = stack_vf[0]; if( f1<f0 ) type = 0; if( f1<f0 ) f0 = f1; // Branchless cmov
    f1 = stack_vf[1]; if( f1<f0 ) type = 1; if( f1<f0 ) f0 = f1;
    f1 = stack_vf[2]; if( f1<f0 ) type = 2; if( f1<f0 ) f0 = f1;
''', '''    type = 3; f0 = 1;
    for( int ax = 0; ax < 3; ax++ ) {
      f1 = stack_vf[ax];
      if( f1<f0 ) { type = ax; f0 = f1; }
    }
'''))
AD = 'src/vpic/advance.cc'
r('adv_leftover', 'T01 U01', (AD, '''    int nm = sp->nm;
    particle_mover_t * RESTRICT ALIGNED(16)  pm = sp->pm + sp->nm - 1;
    particle_t * RESTRICT ALIGNED(128) p0 = sp->p;
    for (; nm; nm--, pm--) {
      int i = pm->i; // particle index we are removing
      p0[i].i >>= 3; // shift particle voxel down
      // accumulate the particle's charge to the mesh
      accumulate_rhob( field_array->f, p0+i, sp->g, sp->q );
      p0[i] = p0[sp->np-1]; // put the last particle into position i
      sp->np--; // decrement the number of particles
    }
    sp->nm = 0;
''', '''    while( sp->nm>0 ) {
      particle_t * p = sp->p + sp->pm[ --sp->nm ].i;
      p->i = p->i>>3;
      accumulate_rhob( field_array->f, p, sp->g, sp->q );
      sp->np--;
      *p = sp->p[ sp->np ];
    }
'''))
r('adv_due', 'T01', (AD, '''#define FAK field_array->kernel
''', '''#define FAK field_array->kernel

static inline bool due( int64_t s, int interval ) {
  if( interval<=0 ) return false;
  return s % interval == 0;
}
'''), (AD, '''  if( (clean_div_e_interval>0) && ((step() % clean_div_e_interval)==0) ) {''', '''  if( due( step(), clean_div_e_interval ) ) {'''),
  (AD, '''  if( (clean_div_b_interval>0) && ((step() % clean_div_b_interval)==0) ) {''', '''  if( due( step(), clean_div_b_interval ) ) {'''),
  (AD, '''  if( (sync_shared_interval>0) && ((step() % sync_shared_interval)==0) ) {''', '''  if( due( step(), sync_shared_interval ) ) {'''),
  (AD, '''    if( (sp->sort_interval>0) && ((step() % sp->sort_interval)==0) ) {''', '''    if( due( step(), sp->sort_interval ) ) {'''))
r('adv_order', 'T01', (AD, '''  TIC FAK->clear_jf( field_array ); TOC( clear_jf, 1 );
  if( species_list )''', '''  if( species_list )'''), (AD, '''  LIST_FOR_EACH( sp, species_list )
    TIC advance_p(''', '''  for( sp=species_list; sp!=NULL; sp=sp->next )
    TIC advance_p('''), (AD, '''  // This should be after the emission and injection to allow''', '''  TIC FAK->clear_jf( field_array ); TOC( clear_jf, 1 );

  // This should be after the emission and injection to allow'''))
r('adv_round', 'T01', (AD, '''    for( int round=0; round<num_div_b_round; round++ ) {
      TIC FAK->compute_div_b_err( field_array ); TOC( compute_div_b_err, 1 );
      if( round==0 || round==num_div_b_round-1 ) {''', '''    const int last = num_div_b_round-1;
    for( int round=0; round<=last; ++round ) {
      const bool report = ( round==0 ) || ( round==last );
      TIC FAK->compute_div_b_err( field_array ); TOC( compute_div_b_err, 1 );
      if( report ) {'''),
  (AD, '''  if( num_step>0 && step()>=num_step ) return 0;''', '''  if( num_step>0 ) {
    if( !( step()<num_step ) ) return 0;
  }'''))
RM = 'src/field_advance/standard/remote.cc'
r('rem_size', 'M01 F03 U01', (RM, '''# define BEGIN_SEND(i,j,k,X,Y,Z) BEGIN_PRIMITIVE {          \\
    size = (1+n##Y*(n##Z+1)+n##Z*(n##Y+1))*sizeof(float);   \\
    p = (float *)size_send_port( i, j, k, size, g );        \\
    if( p ) {                                               \\
      (*(p++)) = g->d##X;				    \\
      face = (i+j+k)<0 ? 1 : n##X;			    \\
''', '''# define BEGIN_SEND(i,j,k,X,Y,Z) BEGIN_PRIMITIVE {          \\
    size = tang_size( n##Y, n##Z );                         \\
    p = (float *)size_send_port( i, j, k, size, g );        \\
    if( p!=NULL ) {                                         \\
      p[0] = g->d##X; p += 1;				    \\
      if( i<0 || j<0 || k<0 ) face = 1; else face = n##X;   \\
'''), (RM, '''void
begin_remote_ghost_tang_b( ''', '''static int tang_size( int n1, int n2 ) {
  int n_edge = n1*(n2+1);
  n_edge += n2*(n1+1);
  return (n_edge+1)*(int)sizeof(float);
}

void
begin_remote_ghost_tang_b( '''))
r('rem_order', 'M01 F03', (RM, '''  BEGIN_SEND((-1), 0, 0,x,y,z);
  BEGIN_SEND( 0,(-1), 0,y,z,x);
  BEGIN_SEND( 0, 0,(-1),z,x,y);
  BEGIN_SEND( 1, 0, 0,x,y,z);
  BEGIN_SEND( 0, 1, 0,y,z,x);
  BEGIN_SEND( 0, 0, 1,z,x,y);
# undef BEGIN_SEND
}

void
end_remote_ghost_tang_b''', '''  BEGIN_SEND( 1, 0, 0,x,y,z);
  BEGIN_SEND((-1), 0, 0,x,y,z);
  BEGIN_SEND( 0, 0, 1,z,x,y);
  BEGIN_SEND( 0, 1, 0,y,z,x);
  BEGIN_SEND( 0,(-1), 0,y,z,x);
  BEGIN_SEND( 0, 0,(-1),z,x,y);
# undef BEGIN_SEND
}

void
end_remote_ghost_tang_b'''))
UA = 'src/sf_interface/pipeline/unload_accumulator_pipeline.cc'
r('unl_loop', 'A01 U01', (UA, '''  LOAD_STENCIL();

  for( ; n_voxel; n_voxel-- )
  {
    f0->jfx +=''', '''  while( n_voxel-- > 0 )
  {
    LOAD_STENCIL();

    f0->jfx +='''), (UA, '''    f0++; a0++; ax++; ay++; az++; ayz++; azx++; axy++;

    x++;
    if ( x > nx + 1 )
    {
      x = 1, y++;
      if ( y > ny + 1 ) y = 1, z++;
      LOAD_STENCIL();
    }
''', '''    if ( ++x == nx + 2 )
    {
      x = 1;
      if ( ++y == ny + 2 ) { y = 1; ++z; }
    }
'''))
r('unl_tmp', 'A01 U01', (UA, '''    f0->jfx += cx * ( a0->jx[0] + ay->jx[1] + az->jx[2] + ayz->jx[3] );
    f0->jfy +=''', '''    float sx = a0->jx[0];
    sx += ay->jx[1];
    sx += az->jx[2];
    sx += ayz->jx[3];
    f0->jfx = f0->jfx + sx*cx;
    f0->jfy +='''))
RA = 'src/sf_interface/pipeline/reduce_array_pipeline.cc'
r('red_loop', 'A01 U01 W01', (RA, '''  #define LOOP( OP ) for( j = i ; j < i1; j += 1 ) { OP( j ); }''', '''  #define LOOP( OP ) { j = i; while( j != i1 ) { OP( j ); ++j; } }'''))
r('red_switch', 'A01 U01', (RA, '''      case  8: LOOP( O8 ); nr -= 8 ; r0 += 8 ; break;
''', '''      case  8:
        LOOP( O8 );
        r0 = r0 + 8;
        nr = 0;
        break;
'''))
r('red_args', 'A01 U01 W01', (RA, '''  args->a       = (float *) ( aa->a + i0 );
  args->n       = na * nfloats;
''', '''  int first = i0;
  args->n       = nfloats * na;
  args->a       = aa->a[ first ].jx;
'''), (RA, '''  i0 = ( VOX( 1, 1, 1 ) / 2 ) * 2; //''', '''  i0 = VOX( 1, 1, 1 ) & ~1; //'''))
BP = 'src/collision/pipeline/binary_pipeline.cc'
r('bin_while', 'X01 U01', (BP, '''  for( ; v<v1; v+=n_pipeline )
  {''', '''  for( v-=n_pipeline; (v+=n_pipeline)<v1; )
  {'''), (BP, '''    for( ; nc; nc-- )
    {''', '''    for( int cand=0; cand<nc; ++cand )
    {'''), (BP, '''      w_max = (wk>wl) ? wk : wl;
''', '''      w_max = wk;
      if( wl>w_max ) w_max = wl;
'''), (BP, '''      w_min = (wk>wl) ? wl : wk;
      type = 1; if( wl==w_min ) type++;
      if(''', '''      w_min = wk;
      if( wl<w_min ) w_min = wl;
      type = ( wl==w_min ) ? 2 : 1;
      if('''))
r('bin_pick', 'X01 U01', (BP, '''      do { k = (int)(uirand(rng)/rk); } while( k>=nk ); k += k0;
      do { l = (int)(uirand(rng)/rl); } while( l>=nl ); l += l0;
''', '''      k = k0 + pick( rng, rk, nk );
      l = l0 + pick( rng, rl, nl );
'''), (BP, '''void
binary_pipeline_scalar(''', '''static int
pick( rng_t * rng, unsigned r, int n )
{
  for( ;; )
  {
    int i = (int)( uirand( rng ) / r );
    if( i<n ) return i;
  }
}

void
binary_pipeline_scalar('''), (BP, '''      if( frand_c0(rng)>=pr_coll ) continue; /* Didn't collide */
''', '''      const float u = frand_c0(rng);
      if( !( u<pr_coll ) ) continue; /* Didn't collide */
'''))
r('bin_norm', 'X01', (BP, '''    pr_norm = dtinterval_dV*((float)np / (float)nc);
''', '''    const float n_pair = np, n_cand = nc;
    pr_norm = dtinterval_dV*n_pair / n_cand;
'''), (BP, '''      np = nk*(nk+1) >> 1;
      nc = (int)( 0.5 + sample*(double)nk );''', '''      nc = (int)( sample*nk + 0.5 );
      np = ( nk*( 1+nk ) ) / 2;'''), (BP, '''      nc = (int)( 0.5 + sample*(double)(nk>nl ? nk : nl) );''', '''      nc = (int)( 0.5 + sample*(double)(nk<=nl ? nl : nk) );'''))
MI = 'src/vpic/misc.cc'
r('inj_helper', 'J01 U01', (MI, '''  x  = ((double)nx)*((x-x0)/(x1-x0)); // x is rigorously on [0,nx]
  ix = (int)x;                        // ix is rigorously on [0,nx]
  x -= (double)ix;                    // x is rigorously on [0,1)
  x  = (x+x)-1;                       // x is rigorously on [-1,1)
  if( ix==nx ) x = 1;                 // On far wall ... conditional move
  if( ix==nx ) ix = nx-1;             // On far wall ... conditional move
  ix++;                               // Adjust for mesh indexing
''', '''  ix = locate( x, x0, x1, nx );
'''), (MI, '''void
vpic_simulation::inject_particle(''', '''static int locate( double & x, double x0, double x1, int nx ) {
  x = ((double)nx)*((x-x0)/(x1-x0));
  int ix = (int)x;
  if( ix==nx ) { x = 1; return nx; }
  x = 2*(x-ix)-1;
  return ix+1;
}

void
vpic_simulation::inject_particle('''))
r('inj_cond', 'J01 G01', (MI, '''  if( (x<x0) | (x>x1) | ( (x==x1) & (grid->bc[BOUNDARY(1,0,0)]>=0 ) ) ) return;
''', '''  if( x<x0 ) return;
  if( x>x1 ) return;
  if( x==x1 ) {
    const int nb = grid->bc[BOUNDARY(1,0,0)];
    if( nb>=0 ) return;
  }
'''))
r('inj_age', 'J01 U01', (MI, '''    age *= grid->cvac*grid->dt/sqrt( ux*ux + uy*uy + uz*uz + 1 );
    pm->dispx = ux*age*grid->rdx;
''', '''    const double rgamma = 1/sqrt( 1 + ( ux*ux + uy*uy + uz*uz ) );
    age *= grid->cvac*grid->dt*rgamma;
    pm->dispx = age*ux*grid->rdx;
'''), (MI, '''  if( age!=0 ) {
    if(''', '''  if( age==0 ) return;
  {
    if('''))
SF = 'src/field_advance/standard/sfa.cc'
r('sfa_drive', 'S01', (SF, '''    if( ax==0 )              mc->drivex = 1./m->epsx;
    else if( mc->decayx==0 ) mc->drivex = 0;
    else mc->drivex = 2.*exp(-0.5*ax)*sinh(0.5*ax) / (ax*m->epsx);
    if( ay==0 )              mc->drivey = 1./m->epsy;
    else if( mc->decayy==0 ) mc->drivey = 0;
    else mc->drivey = 2.*exp(-0.5*ay)*sinh(0.5*ay) / (ay*m->epsy);
''', '''    mc->drivex = drive( ax, mc->decayx, m->epsx );
    mc->drivey = drive( ay, mc->decayy, m->epsy );
'''), (SF, '''sfa_params_t *
create_sfa_params(''', '''static float
drive( float a, float decay, float eps ) {
  if( a==0 ) return 1./eps;
  if( decay==0 ) return 0;
  return 2.*exp(-0.5*a)*sinh(0.5*a) / (a*eps);
}

sfa_params_t *
create_sfa_params('''))
r('sfa_nonc', 'S01', (SF, '''    mc->nonconductive = ( ax==0 && ay==0 && az==0 ) ? 1. : 0.;
''', '''    if( ax!=0 || ay!=0 || az!=0 ) mc->nonconductive = 0;
    else                          mc->nonconductive = 1;
'''), (SF, '''    mc = p->mc + m->id;
''', '''    mc = &p->mc[ m->id ];
'''))
MR = 'src/boundary/maxwellian_reflux.cc'
r('mr_loop', 'J01 E01 D01 U01', (MR, '''  ux   = u[perm[face][0]];
  uy   = u[perm[face][1]];
  uz   = u[perm[face][2]];
''', '''  const int * pf = perm[face];
  uz   = u[pf[2]];
  uy   = u[pf[1]];
  ux   = u[pf[0]];
'''), (MR, '''  ratio = p->ux*p->ux + p->uy*p->uy + p->uz*p->uz;
''', '''  ratio  = p->ux*p->ux;
  ratio += p->uy*p->uy;
  ratio += p->uz*p->uz;
'''))
AT = 'src/boundary/absorb_tally.cc'
r('at_order', 'E01 R01 D01 U01', (AT, '''  at->tally[ sp->id ]++;
  accumulate_rhob( at->fa->f, p, at->fa->g, sp->q );
''', '''  const field_array_t * fa = at->fa;
  accumulate_rhob( fa->f, p, fa->g, sp->q );
  at->tally[ sp->id ] += 1;
'''), (AT, '''  MALLOC( at->tally, num_species( sp_list ) );
  CLEAR( at->tally, num_species( sp_list ) );  
''', '''  const int n = num_species( sp_list );
  MALLOC( at->tally, n );
  for( int i=0; i<n; i++ ) at->tally[i] = 0;
'''))
r('ck_order', 'R01 U01', (SF, '''  CHECKPT_ALIGNED( fa->f, fa->g->nv, 128 );
  CHECKPT_PTR( fa->g );
  CHECKPT( p, 1 );''', '''  CHECKPT_PTR( fa->g );
  CHECKPT_ALIGNED( fa->f, fa->g->nv, 128 );
  CHECKPT( p, 1 );'''), (SF, '''  RESTORE_ALIGNED( fa->f );
  RESTORE_PTR( fa->g );
  RESTORE( p );''', '''  RESTORE_PTR( fa->g );
  RESTORE_ALIGNED( fa->f );
  RESTORE( p );'''))

DU = 'src/vpic/dump.cc'
r('du_snprintf', 'Y01 U01', (DU, '''  sprintf( fname, "%s.%i", fbase, rank() );
  FileIOStatus status = fileIO.open(fname, io_write);
  if( status==fail ) ERROR(( "Could not open \\"%s\\".", fname ));

  /* IMPORTANT''', '''  snprintf( fname, sizeof(fname), "%s.%d", fbase, rank() );
  FileIOStatus status = fileIO.open(fname, io_write);
  if( status!=ok ) ERROR(( "Could not open \\"%s\\".", fname ));

  /* IMPORTANT'''))
r('du_setout', 'Y01 U01', (DU, '''void
vpic_simulation::dump_grid( const char *fbase ) {''', '''#define SET_OUT(g) do { \\
  nxout = (g)->nx; dxout = (g)->dx; \\
  nyout = (g)->ny; dyout = (g)->dy; \\
  nzout = (g)->nz; dzout = (g)->dz; } while(0)

void
vpic_simulation::dump_grid( const char *fbase ) {'''), (DU, '''  nxout = grid->nx;
  nyout = grid->ny;
  nzout = grid->nz;
  dxout = grid->dx;
  dyout = grid->dy;
  dzout = grid->dz;

  WRITE_HEADER_V0( dump_type::particle_dump,''', '''  SET_OUT( grid );

  WRITE_HEADER_V0( dump_type::particle_dump,'''))
r('du_chunk', 'Y01 U01', (DU, '''  for( buf_start=0; buf_start<sp_np; buf_start += PBUF_SIZE ) {
    sp->np = sp_np-buf_start; if( sp->np > PBUF_SIZE ) sp->np = PBUF_SIZE;
    COPY( sp->p, &sp_p[buf_start], sp->np );
    center_p( sp, interpolator_array );
    fileIO.write( sp->p, sp->np );
  }''', '''  buf_start = 0;
  while( sp_np > buf_start ) {
    const int left = sp_np - buf_start;
    sp->np = left < PBUF_SIZE ? left : PBUF_SIZE;
    for( int n=0; n<sp->np; n++ ) p_buf[n] = sp_p[ buf_start+n ];
    center_p( sp, interpolator_array );
    fileIO.write( p_buf, sp->np );
    buf_start += sp->np;
  }'''))
r('du_rowbuf', 'Y01 U01', (DU, '''      for(size_t v(0); v<numvars; v++)
      for(size_t k(0); k<nzout+2; k++)
      for(size_t j(0); j<nyout+2; j++)
      for(size_t i(0); i<nxout+2; i++) {
              const uint32_t * href = reinterpret_cast<uint32_t *>(&hydro(i,j,k));
              fileIO.write(&href[varlist[v]], 1);
      }
''', '''    {
      uint32_t * row = new uint32_t[nxout+2];
      for(size_t v(0); v<numvars; v++)
      for(size_t k(0); k<nzout+2; k++)
      for(size_t j(0); j<nyout+2; j++) {
        for(size_t i(0); i<nxout+2; i++)
          row[i] = reinterpret_cast<const uint32_t *>(&hydro(i,j,k))[varlist[v]];
        fileIO.write( row, nxout+2 );
      }
      delete[] row;
    }
'''))
r('du_hdr', 'Y01 U01', ('src/vpic/dumpmacros.h', '''#define WRITE_ARRAY_HEADER(p,ndim,dim,fileIO) do { \\
    WRITE( int, sizeof(p[0]), fileIO );            \\
    WRITE( int, ndim,         fileIO );            \\
    fileIO.write( dim, ndim );                     \\
  } while(0)''', '''#define WRITE_ARRAY_HEADER(p,ndim,dim,fileIO) do { \\
    int __hdr[2] = { (int)sizeof(p[0]), ndim };    \\
    fileIO.write( __hdr, 2 );                      \\
    for( int __d=0; __d<(ndim); __d++ )            \\
      WRITE( int, dim[__d], fileIO );              \\
  } while(0)'''))
r('du_en', 'Y01 U01', (DU, '''  field_array->kernel->energy_f( en_f, field_array );
  if( rank()==0 && status!=fail )
    fileIO.print( "%e %e %e %e %e %e",
                  en_f[0], en_f[1], en_f[2],
                  en_f[3], en_f[4], en_f[5] );
''', '''  field_array->kernel->energy_f( en_f, field_array );
  if( rank()==0 && status!=fail ) {
    fileIO.print( "%e", en_f[0] );
    for( int k=1; k<6; k++ ) fileIO.print( " %e", en_f[k] );
  }
'''))
r('du_mod', 'Y01 U01', (DU, '''  if(remainder(grid->nx, istride) != 0)
    ERROR(("x stride must be an integer factor of nx"));''', '''  if( grid->nx % istride )
    ERROR(("x stride must be an integer factor of nx"));'''))
r('du_early', 'Y01 U01', (DU, '''  sp = find_species_name( sp_name, species_list );
  if( !sp ) ERROR(( "Invalid species \\"%s\\"", sp_name ));

  // default behavior - do regular VPIC hydro dump
''', '''  for( sp=species_list; sp; sp=sp->next )
    if( !strcmp( sp->name, sp_name ) ) break;
  if( sp==NULL ) ERROR(( "Invalid species \\"%s\\"", sp_name ));
'''))
r('du_bits', 'Y01 U01', ('src/util/bitfield.h', '''			for(size_t i(0); i<32; i++) {
				if(bitset(i)) {
					++sum;
				} // if
			} // for
			return sum;''', '''			for(uint32_t b = bits_; b; b >>= 1) sum += b & 1;
			return sum;'''))
r('du_string', 'Y01', (DU, '''  sprintf( timeDir,
           "%s/T.%ld",
           dumpParams.baseDir,
           dumpStep );

  dump_mkdir( timeDir );

  // Open the file for output
  char filename[300];

  sprintf( filename,
           "%s/T.%ld/%s.%ld.%d",
           dumpParams.baseDir,
           dumpStep,
           dumpParams.baseFileName,
           dumpStep,
           rank() );

  FileIO fileIO;
  FileIOStatus status;

  status = fileIO.open(filename, io_write);
  if(status == fail)''', '''  sprintf( timeDir, "%s/T.%ld", dumpParams.baseDir, dumpStep );
  dump_mkdir( timeDir );

  char filename[600];
  sprintf( filename, "%s/%s.%ld.%d", timeDir, dumpParams.baseFileName, dumpStep, rank() );

  FileIO fileIO;
  FileIOStatus status = fileIO.open(filename, io_write);
  if(status == fail)'''))

PT = 'src/util/pipelines/pipelines_thread.cc'
r('pi_sigafter', 'P01', (PT, '''        pthread_cond_signal( &Pipeline[id].wake );
        pthread_mutex_unlock( &Pipeline[id].mutex );
        return;''', '''        pthread_mutex_unlock( &Pipeline[id].mutex );
        pthread_cond_signal( &Pipeline[id].wake );
        return;'''))
r('pi_waitfor', 'P01', (PT, '''  id = 0;
  while( id<thread.n_pipeline ) {
    if( Done[id] ) id++;
    else           nanodelay(5);
  }
''', '''  for( id=thread.n_pipeline-1; id>=0; id-- )
    while( !Done[id] ) nanodelay(5);
'''))
r('pi_reset', 'P01', (PT, '''  for( id=0; id<thread.n_pipeline-Dispatch_To_Host; id++ ) {
    Done[id] = 0;
    parallel''', '''  for( id=0; id<thread.n_pipeline; id++ ) Done[id] = 0;
  for( id=0; id<thread.n_pipeline-Dispatch_To_Host; id++ ) {
    parallel'''))
r('pi_mgr', 'P01', (PT, '''    switch( pipeline->state ) {

    case PIPELINE_TERMINATE:

      // Terminate the pipeline. Unlock the mutex first (as
      // pthread_cond_wait locks it when the pipeline wakes up).

      pthread_mutex_unlock( &pipeline->mutex );
      return NULL;

    case PIPELINE_EXECUTE:

      // Execute the given task and set the completion flag if
      // necessary.  Note: the pipeline mutex is locked while the
      // pipeline is executing a task.

      if( pipeline->func )
        pipeline->func( pipeline->args, pipeline->job, pipeline->n_job );
      if( pipeline->flag ) *pipeline->flag = 1;

      // Pass through into the next case

    case PIPELINE_ACK:
    case PIPELINE_SLEEP:
    default:

      // Go to sleep. Note: pthread_cond_wait unlocks the pipeline
      // mutex while the pipeline is sleeping and locks it when the
      // pipeline wakes up

      pipeline->state = PIPELINE_SLEEP;
      pthread_cond_wait( &pipeline->wake, &pipeline->mutex );

      break;

    } // switch
''', '''    const int state = pipeline->state;
    if( state==PIPELINE_TERMINATE ) break;
    if( state==PIPELINE_EXECUTE ) {
      pipeline_func_t func = pipeline->func;
      volatile int * flag = pipeline->flag;
      if( func ) func( pipeline->args, pipeline->job, pipeline->n_job );
      if( flag ) *flag = 1;
    }
    pipeline->state = PIPELINE_SLEEP;
    do pthread_cond_wait( &pipeline->wake, &pipeline->mutex );
    while( pipeline->state==PIPELINE_SLEEP );
'''), (PT, '''  } // for

  return NULL; // Never get here - Avoid compiler warning''', '''  } // for

  pthread_mutex_unlock( &pipeline->mutex );
  return NULL;'''))
r('pi_lock2', 'P01', (PT, '''    pthread_mutex_lock( &Pipeline[id].mutex );
    Pipeline[id].state = PIPELINE_TERMINATE;
    pthread_cond_signal( &Pipeline[id].wake );
    pthread_mutex_unlock( &Pipeline[id].mutex );
''', '''    pipeline_state_t * p = &Pipeline[id];
    pthread_mutex_lock( &p->mutex );
    p->state = PIPELINE_TERMINATE;
    pthread_mutex_unlock( &p->mutex );
    pthread_cond_signal( &p->wake );
'''))
r('pi_join2', 'P01', (PT, '''    if( pthread_join( Pipeline[id].handle, NULL ) )
      ERROR(( "Unable to terminate pipeline!" ));

  }
''', '''  }
  for( id=0; id<thread.n_pipeline-Dispatch_To_Host; id++ )
    if( pthread_join( Pipeline[id].handle, NULL ) )
      ERROR(( "Unable to terminate pipeline!" ));
'''))
r('pi_hostfirst', 'P01', (PT, '''    if( func ) func( ((char *)args) + id*sz*str, id, thread.n_pipeline );
    Done[id] = 1;''', '''    char * a = (char *)args;
    a += (long)id*sz*str;
    if( func ) func( a, id, thread.n_pipeline );
    Done[id] = 1;'''))
r('pi_heap', 'P01', (PT, '''    pthread_mutex_lock( &Pipeline[id].mutex );
    Pipeline''', '''    if( pthread_mutex_lock( &Pipeline[id].mutex ) ) ERROR(( "lock failed" ));
    Pipeline'''))
r('pi_ser', 'P01', ('src/util/pipelines/pipelines_serial.cc', '''  for( id=0; id<serial.n_pipeline; id++ )
    if( func ) func( ((char *)args) + id*sz*str, id, serial.n_pipeline );''', '''  if( func )
    for( id=serial.n_pipeline-1; id>=0; id-- )
      func( ((char *)args) + id*sz*str, id, serial.n_pipeline );'''))

r('li_strip', 'L01', ('src/util/util_base.cc', '''  int i, n = 0, val = 0;
  for( i=0; i<(*pargc); i++ )
    if( strcmp( (*pargv)[i], key ) ) (*pargv)[n++] = (*pargv)[i];
    else val++;
  (*pargv)[n] = NULL, (*pargc) = n; /* ANSI - argv is NULL terminated */
  return val;''', '''  char ** argv = *pargv;
  const int argc = *pargc;
  int n = 0;
  for( int i=0; i<argc; i++ )
    if( strcmp( argv[i], key )!=0 ) argv[n++] = argv[i];
  argv[n] = NULL;
  *pargc = n;
  return argc-n;'''))
r('li_mall', 'L01', ('src/util/util_base.cc', '''  mem_a = (char *) ( ( (unsigned long int) ( mem_u +
					     a +
					     sizeof( char * ) ) ) & ( ~a ) );
''', '''  unsigned long int where = (unsigned long int) mem_u + sizeof( char * );
  where = ( where + a ) & ~a;
  mem_a = (char *) where;
'''))
r('li_main', 'L01', ('deck/main.cc', '''    UNREGISTER_OBJECT( &simulation );
    simulation->finalize();
    delete simulation;''', '''    simulation->finalize();
    UNREGISTER_OBJECT( &simulation );
    delete simulation;'''), ('deck/main.cc', '''    while( simulation->advance() );''', '''    for(;;) { if( !simulation->advance() ) break; }'''))
r('li_name', 'L01', ('deck/main.cc', '''    char fname[256];
    if( !fbase )''', '''    char fname[512];
    if( !fbase )'''), ('deck/main.cc', '''    sprintf( fname, "%s.%i.%i", fbase, tag, world_rank );''', '''    snprintf( fname, sizeof(fname), "%s.%d.%d", fbase, tag, world_rank );'''))
r('li_dtor', 'L01', ('src/vpic/vpic.cc', '''  delete_grid( grid );
  delete_rng_pool( sync_entropy );
  delete_rng_pool( entropy );''', '''  delete_rng_pool( entropy );
  delete_rng_pool( sync_entropy );
  delete_grid( grid );
  grid = NULL;'''))
r('li_boot', 'L01', ('src/util/boot.cc', '''    halt_mp();
    thread.halt();
    serial.halt();''', '''    thread.halt();
    serial.halt();
    halt_mp();'''), ('src/util/boot.cc', '''  _boot_timestamp = 0;
  _boot_timestamp = uptime();''', '''  _boot_timestamp = 0;
  const double t = uptime();
  _boot_timestamp = t;'''))
r('li_rm', 'L01', ('src/species_advance/species_advance.cc', '''  UNREGISTER_OBJECT( sp );
''', '''  species_t * const dead = sp;
  UNREGISTER_OBJECT( dead );
'''))

VH = 'src/vpic/vpic.h'
SC = 'src/species_advance/species_advance.cc'
r('dk_vox', 'J03', (VH, 'return ix + grid->sy*iy + grid->sz*iz;', 'const int row = iy + (grid->ny+2)*iz; return ix + (grid->nx+2)*row;'))
r('dk_time', 'J03', (VH, 'return grid->t0 + (double)grid->dt*(double)grid->step;', 'double t = grid->dt; t *= (double)grid->step; return t + grid->t0;'))
r('dk_courant', 'J03', (VH, """    double w0, w1 = 0;
    if( nx>1 ) w0 = nx/lx, w1 += w0*w0;
    if( ny>1 ) w0 = ny/ly, w1 += w0*w0;
    if( nz>1 ) w0 = nz/lz, w1 += w0*w0;
    return sqrt(1/w1);""", """    const double n[3] = { nx, ny, nz }, l[3] = { lx, ly, lz };
    double w1 = 0;
    for( int d=0; d<3; d++ ) if( n[d]>1 ) w1 += ( n[d]/l[d] )*( n[d]/l[d] );
    return 1/sqrt(w1);"""))
r('dk_iso', 'J03', (VH, """    return append_material( material( name,
                                      eps,   eps,   eps,
                                      mu,    mu,    mu,
                                      sigma, sigma, sigma,
                                      zeta,  zeta,  zeta ), &material_list );""", """    material_t * m = material( name, eps, eps, eps, mu, mu, mu, sigma, sigma, sigma, zeta, zeta, zeta );
    append_material( m, &material_list );
    return m;"""))
r('dk_fa', 'J03', (VH, """    interpolator_array = new_interpolator_array( grid );
    accumulator_array  = new_accumulator_array( grid );
    hydro_array        = new_hydro_array( grid );""", """    hydro_array        = new_hydro_array( grid );
    accumulator_array  = new_accumulator_array( grid );
    interpolator_array = new_interpolator_array( grid );"""))
r('dk_topo', 'J03 G01', (VH, """        px = size_t(gpx); py = size_t(gpy); pz = size_t(gpz);
    partition_metal_box( grid, xl, yl, zl, xh, yh, zh,
                         (int)gnx, (int)gny, (int)gnz,
                         (int)gpx, (int)gpy, (int)gpz );""", """    const int tx = (int)gpx, ty = (int)gpy, tz = (int)gpz;
    partition_metal_box( grid, xl, yl, zl, xh, yh, zh,
                         (int)gnx, (int)gny, (int)gnz,
                         tx, ty, tz );
    px = tx; py = ty; pz = tz;"""))
r('dk_find', 'J03 J01', (SC, """  LIST_FIND_FIRST( sp, sp_list, strcmp( sp->name, name )==0 );
  return sp;""", """  for( sp=sp_list; sp; sp=sp->next ) if( !strcmp( name, sp->name ) ) return sp;
  return NULL;"""))
r('dk_mov', 'J03', (VH, """      max_local_nm = 2*max_local_np/25;
      if( max_local_nm<16*(MAX_PIPELINE+1) )
        max_local_nm = 16*(MAX_PIPELINE+1);""", """      const double least = 16*(MAX_PIPELINE+1), usual = max_local_np*2/25;
      max_local_nm = usual>least ? usual : least;"""))
r('dk_unif', 'J03', (VH, 'return low*(1-dx) + high*dx;', 'return low + (high-low)*dx;'))
r('dk_raw', 'J01 J03', (VH, '    p->dx = dx; p->dy = dy; p->dz = dz; p->i = i;\n    p->ux = ux; p->uy = uy; p->uz = uz; p->w = w;\n  }\n\n  // This variant', '    particle_t q;\n    q.dx = dx; q.dy = dy; q.dz = dz; q.i = i;\n    q.ux = ux; q.uy = uy; q.uz = uz; q.w = w;\n    *p = q;\n  }\n\n  // This variant'))
r('dk_mat', 'J03 S01', ('src/material/material.cc', """  m->epsx   = epsx,   m->epsy   = epsy,   m->epsz   = epsz;
  m->mux    = mux,    m->muy    = muy,    m->muz    = muz;""", """  m->mux = mux; m->muy = muy; m->muz = muz;
  m->epsx = epsx; m->epsy = epsy; m->epsz = epsz;"""))
r('dk_pbc', 'J03 B01', ('src/boundary/boundary.cc', """  pbc->id   = -3-num_particle_bc( *pbc_list );
  pbc->next = *pbc_list;""", """  pbc->next = *pbc_list;
  pbc->id   = pbc->next ? pbc->next->id-1 : -3;"""))
