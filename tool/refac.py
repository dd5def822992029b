#!/usr/bin/env python3
"""refac.py [name-regex]: behaviour-preserving rewrites of the analysed code, each given to its checks in a
scratch copy; every check must stay quiet (exit 0). Development aid, no check uses it."""
import sys, os, re, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
REPO = os.environ.get('REFAC_REPO', '/repo')
os.environ.setdefault('VPIC_SA_TU', '/tmp/vpic_tu')
os.environ.setdefault('VPIC_SA_TREES', '24')
FA = 'src/field_advance/standard/'
FP = FA + 'pipeline/'
SP = 'src/species_advance/standard/'
PP = SP + 'pipeline/'
R = []


def r(name, checks, *edits):
    R.append((name, checks, edits))


FCH = 'F01 F02 W01 W02 W03'
PCH = 'K01 K02 W04 W01 C01'
# --- field sweeps
r('advb_helper', FCH, (FP + 'advance_b_pipeline.cc', '''  // Do left over bx
  for( z = 1; z <= nz; z++ )
  {
    for( y = 1; y <= ny; y++ )
    {
      f0 = &f( nx+1, y,   z   );
      fy = &f( nx+1, y+1, z   );
      fz = &f( nx+1, y,   z+1 );

      UPDATE_CBX();
    }
  }
''', '''  left_over_bx( args );
'''), (FP + 'advance_b_pipeline.cc', '''void
advance_b_pipeline( field''', '''static void
left_over_bx( pipeline_args_t * args )
{
  DECLARE_STENCIL();
  x = nx + 1;
  for( y = 1; y <= ny; y++ )
    for( z = nz; z > 0; z-- )
    {
      INIT_STENCIL();
      UPDATE_CBX();
    }
}

void
advance_b_pipeline( field'''))
r('advb_while', FCH, (FP + 'advance_b_pipeline.cc', '''  for( ; n_voxel; n_voxel-- )
  {
    UPDATE_CBX();
    UPDATE_CBY();
    UPDATE_CBZ();

    NEXT_STENCIL();
  }
''', '''  while( n_voxel > 0 )
  {
    UPDATE_CBZ();
    UPDATE_CBX();
    UPDATE_CBY();

    NEXT_STENCIL();
    n_voxel--;
  }
'''))
r('advb_recompute', FCH, (FP + 'advance_b_pipeline.cc', '''  for( ; n_voxel; n_voxel-- )
  {
    UPDATE_CBX();
    UPDATE_CBY();
    UPDATE_CBZ();

    NEXT_STENCIL();
  }
''', '''  int i;
  for( i = 0; i < n_voxel; i++ )
  {
    f0 = &f( x, y, z );
    fx = f0 + 1;
    fy = f0 + ( nx + 2 );
    fz = f0 + ( nx + 2 )*( ny + 2 );

    UPDATE_CBX();
    UPDATE_CBY();
    UPDATE_CBZ();

    if( ++x > nx )
    {
      x = 1;
      if( ++y > ny )
      {
        y = 1;
        ++z;
      }
    }
  }
'''))
r('advb_hdr', FCH, (FP + 'advance_b_pipeline.h', '''  if ( x > nx )                             \\
  {				            \\
                  y++;               x = 1; \\
    if ( y > ny ) z++; if ( y > ny ) y = 1; \\
    INIT_STENCIL();                         \\
  }''', '''  if ( x == nx + 1 )                        \\
  {				            \\
    x = 1;                                  \\
    if ( y < ny ) { y++; }                  \\
    else { y = 1; z++; }                    \\
    INIT_STENCIL();                         \\
  }'''), (FP + 'advance_b_pipeline.h', '''#define UPDATE_CBX() f0->cbx -= ( py*( fy->ez-f0->ez ) - pz*( fz->ey-f0->ey ) )''',
 '''#define UPDATE_CBX() do { const float dez = fy->ez-f0->ez, dey = fz->ey-f0->ey; \\
  const float curl = py*dez - pz*dey; f0->cbx = f0->cbx - curl; } while(0)'''))
r('curl_helper', FCH, (FP + 'compute_curl_b_pipeline.cc', '''    f0 = &f( 2, 1, z   );
    fx = &f( 1, 1, z   );
    fz = &f( 2, 1, z-1 );

    for( x = 2; x <= nx; x++ )
    {
      UPDATE_EY();

      f0++;
      fx++;
      fz++;
    }
''', '''    x = 2;
    while( x < nx + 1 )
    {
      f0 = &f( x,   1, z   );
      fx = &f( x-1, 1, z   );
      fz = &f( x,   1, z-1 );
      UPDATE_EY();
      x++;
    }
'''), (FP + 'compute_curl_b_pipeline.cc', '''  begin_remote_ghost_tang_b( fa->f, fa->g );

  local_ghost_tang_b( fa->f, fa->g );
''', '''  field_t * RESTRICT fptr = fa->f;
  const grid_t * grd = fa->g;
  begin_remote_ghost_tang_b( fptr, grd );
  local_ghost_tang_b( fptr, grd );
'''))
r('divb_rows', FCH, (FP + 'clean_div_b_pipeline.cc', '''# define LOAD_STENCIL()     \\
  f0 = &f( x,   y,   z   ); \\
  fx = &f( x-1, y,   z   ); \\
  fy = &f( x,   y-1, z   ); \\
  fz = &f( x,   y,   z-1 )
''', '''# define LOAD_STENCIL()     \\
  f0 = f + VOXEL( x, y, z, nx, ny, nz ); \\
  fx = f0 - 1; \\
  fy = &f( x,   y-1, z   ); \\
  fz = fy + (nx+2) - (nx+2)*(ny+2)
'''), (FP + 'clean_div_b_pipeline.cc', '''  px = ( nx > 1 ) ? g->rdx : 0;
  py = ( ny > 1 ) ? g->rdy : 0;
''', '''  if( nx > 1 ) px = g->rdx; else px = 0;
  py = ( ny <= 1 ) ? 0 : g->rdy;
'''))
r('v4_reorder', FCH, (FP + 'advance_b_pipeline_v4.cc', '''      LOAD_STENCIL();''', '''      LOAD_STENCIL();
      (void)n_voxel;'''))
# --- particles
r('advp_q', PCH, (PP + 'advance_p_pipeline.cc', '''    q    = p->w;

    ux  += hax;                               // Half advance E
    uy  += hay;
    uz  += haz;
''', '''    ux   = ux + hax;                               // Half advance E
    uz   = uz + haz;
    uy   = uy + hay;
'''), (PP + 'advance_p_pipeline.cc', '''      q *= qsp;

      p->dx = v3; ''', '''      q = p->w*qsp;

      p->dx = v3; '''))
r('advp_idx', PCH, (PP + 'advance_p_pipeline.cc', '''  for( ; n; n--, p++ )
  {
    dx   = p->dx;                             // Load position''', '''  int ip;
  particle_t * const pfirst = p;
  for( ip = 0; ip < n; ip++ )
  {
    p = pfirst + ip;
    dx   = p->dx;                             // Load position'''))
r('advp_helper', PCH, (PP + 'advance_p_pipeline.cc', '''    if (  v3 <= one &&  v4 <= one &&  v5 <= one &&   // Check if inbnds
         -v3 <= one && -v4 <= one && -v5 <= one )
''', '''    if ( in_cell( v3 ) && in_cell( v4 ) && in_cell( v5 ) )
'''), (PP + 'advance_p_pipeline.cc', '''void
advance_p_pipeline_scalar(''', '''static inline int
in_cell( float d )
{
  return d >= -1.0f && d <= 1.0f;
}

void
advance_p_pipeline_scalar('''))
r('advp_overflow', PCH, (PP + 'advance_p_pipeline.cc', '''        if ( nm < max_nm )
        {
          pm[nm++] = local_pm[0];
        }

        else
        {
''', '''        if ( nm < max_nm )
        {
          pm[nm] = *local_pm;
          nm = nm + 1;
          continue;
        }
        {
'''), )
r('centp_helper', PCH, (PP + 'center_p_pipeline.cc', '''    v1   = cbx*cbx + (cby*cby + cbz*cbz);
    v2   = (v0*v0)*v1;
    v3   = v0*(one+v2*(one_third+v2*two_fifteenths));
    v4   = v3/(one+v1*(v3*v3));
    v4  += v4;
''', '''    boris_scalars( cbx, cby, cbz, v0, &v3, &v4 );
'''), (PP + 'center_p_pipeline.cc', '''void
center_p_pipeline_scalar(''', '''static void
boris_scalars( float bx, float by, float bz, float v0, float * s, float * t )
{
  const float b2 = bx*bx + (by*by + bz*bz);
  const float v2 = (v0*v0)*b2;
  *s = v0*(1.0f+v2*((float)(1.0/3.0)+v2*(float)(2.0/15.0)));
  *t = *s/(1.0f+b2*(*s**s));
  *t += *t;
}

void
center_p_pipeline_scalar('''))
r('centp_while', PCH, (PP + 'center_p_pipeline.cc', '''  for( ; n; n--, p++ )''', '''  particle_t * const pend = p + n;
  for( ; p < pend; ++p )'''))
r('distribute', 'W01 K01 F01', ('src/util/pipelines/pipelines.h', 'ZZZ', 'ZZZ'))
r('local_tangb', 'F03', (FA + 'local.cc', '''	Z##Y##_EDGE_LOOP(ghost) f(x,y,z).cb##Y= f(x-i,y-j,z-k).cb##Y;    \\
	Y##Z##_EDGE_LOOP(ghost) f(x,y,z).cb##Z= f(x-i,y-j,z-k).cb##Z;    \\
	break;                                                           \\
      case symmetric''', '''	Y##Z##_EDGE_LOOP(ghost) { fg = &f(x,y,z); fh = &f(x-i,y-j,z-k); fg->cb##Z = fh->cb##Z; } \\
	Z##Y##_EDGE_LOOP(ghost) f(x,y,z).cb##Y= f(x-i,y-j,z-k).cb##Y;    \\
	break;                                                           \\
      case symmetric'''))


sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import refac_more
R += refac_more.R


only = set()
quiet = False


def work(j):
    n, checks, edits = j
    d = f'/tmp/rfc/{n}'
    subprocess.run(['mkdir', '-p', d])
    for x in ('src', 'deck'):
        subprocess.run(['cp', '-a', f'{REPO}/{x}', d])
    for f, a, b in edits:
        t = open(f'{d}/{f}').read()
        if a not in t:
            if a != 'ZZZ':
                print(n, 'EDIT DOES NOT APPLY', f)
            shutil.rmtree(d)
            return
        open(f'{d}/{f}', 'w').write(t.replace(a, b, 1))
    o = []
    for c in checks.split():
        if only and c not in only:
            continue
        p = subprocess.run(['python3', os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/checks/run.py', c],
                           env=dict(os.environ, VPIC_REPO=d, VERIF_JOBS='3', VERIF_TIER='quick'), capture_output=True, text=True)
        o.append(f'{c}={p.returncode}')
        if p.returncode and not (quiet and p.returncode == 1):
            o.append('\n      ' + (p.stdout + p.stderr).strip()[-700:].replace('\n', '\n      ') + '\n')
    shutil.rmtree(d)
    print(n, ' '.join(o), flush=True)


if __name__ == '__main__':
    filt = re.compile(sys.argv[1] if len(sys.argv) > 1 else '.')
    only = set(sys.argv[2:])
    with ThreadPoolExecutor(int(os.environ.get('MUT_W', '2'))) as ex:
        list(ex.map(work, [x for x in R if filt.search(x[0])]))
