// witness deck: instantiates the deck macros and inline helpers of the current tree for the analysis
extern "C" {
int wit_in( double x, double y, double z );
double wit_eq( int k, double x, double y, double z );
int wit_case;
material_t * wit_m1, * wit_m2;
particle_bc_t * wit_b1, * wit_b2, * wit_b3;
emitter_t * wit_em;
species_t * wit_sp;
double wit_a[32];
int64_t wit_i[8];
char * wit_s;
void * wit_r;
double wit_d;
}

begin_initialization {
# define IN wit_in(x,y,z)
# define EQ(k) wit_eq(k,x,y,z)
  switch( wit_case ) {
  case 1: set_point_region_field( IN, EQ(0), EQ(1), EQ(2), EQ(3), EQ(4), EQ(5) ); break;
  case 2: set_region_field( IN, EQ(0), EQ(1), EQ(2), EQ(3), EQ(4), EQ(5) ); break;
  case 3: set_point_region_material( IN, wit_m1 ); break;
  case 4: set_region_material( IN, wit_m1, wit_m2 ); break;
  case 5: set_point_region_bc( IN, wit_b1, wit_b2 ); break;
  case 6: set_region_bc( IN, wit_b1, wit_b2, wit_b3 ); break;
  case 7: define_volume_emitter( wit_em, IN ); break;
  case 8: define_surface_emitter( wit_em, IN ); break;
  }
}

begin_diagnostics {
}

begin_particle_injection {
  const double * a = wit_a;
  const int64_t * i = wit_i;
  switch( wit_case ) {
  case 1: inject_particle( wit_sp, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], (int)i[0] ); break;
  case 2: inject_particle_raw( wit_sp, a[0], a[1], a[2], (int)i[0], a[3], a[4], a[5], a[6] ); break;
  case 3: inject_particle_raw( wit_sp, a[0], a[1], a[2], (int)i[0], a[3], a[4], a[5], a[6], a[7], a[8], a[9], (int)i[1] ); break;
  case 4: inject_particle( wit_sp, a[0], a[1], a[2], a[3], a[4], a[5], a[6] ); break;
  }
}

begin_current_injection {
  const double * a = wit_a;
  switch( wit_case ) {
  case 1: define_units( a[0], a[1] ); break;
  case 2: define_timestep( a[0], a[1], wit_i[0] ); break;
  case 3: wit_r = define_material( wit_s, a[0], a[1], a[2], a[3] ); break;
  case 4: wit_r = define_material( wit_s, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11] ); break;
  case 5: wit_r = define_species( wit_s, a[0], a[1], a[2], a[3], a[4], a[5] ); break;
  case 6: define_periodic_grid( a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11] ); break;
  case 7: define_absorbing_grid( a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], (int)wit_i[0] ); break;
  case 8: define_reflecting_grid( a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11] ); break;
  case 9: define_field_array( NULL, a[0] ); break;
  case 10: wit_r = find_species( wit_s ); break;
  case 11: wit_r = find_species( (int32_t)wit_i[0] ); break;
  case 12: wit_r = lookup_material( wit_s ); break;
  case 13: wit_r = lookup_material( (material_id)wit_i[0] ); break;
  case 14: size_domain( a[0], a[1], a[2] ); break;
  case 15: join_domain( (int)wit_i[0], a[0] ); break;
  case 16: set_domain_field_bc( (int)wit_i[0], (int)wit_i[1] ); break;
  case 17: set_domain_particle_bc( (int)wit_i[0], (int)wit_i[1] ); break;
  case 18: wit_d = time(); break;
  case 19: wit_d = courant_length( a[0], a[1], a[2], a[3], a[4], a[5] ); break;
  case 20: wit_d = trunc_granular( a[0], a[1] ); break;
  case 21: wit_r = &field( (int)wit_i[0], (int)wit_i[1], (int)wit_i[2] ); break;
  case 22: wit_r = &interpolator( (int)wit_i[0], (int)wit_i[1], (int)wit_i[2] ); break;
  case 23: wit_r = &hydro( (int)wit_i[0], (int)wit_i[1], (int)wit_i[2] ); break;
  case 24: wit_d = uniform( rng(0), a[0], a[1] ); break;
  case 25: wit_d = normal( rng(0), a[0], a[1] ); break;
  case 26: wit_i[7] = voxel( (int)wit_i[0], (int)wit_i[1], (int)wit_i[2] ); break;
  case 27: wit_r = &field( (int)wit_i[0] ); break;
  case 28: wit_r = &interpolator( (int)wit_i[0] ); break;
  case 29: wit_r = &hydro( (int)wit_i[0] ); break;
  case 30: wit_r = rng( (int)wit_i[0] ); break;
  case 31: wit_r = sync_rng( (int)wit_i[0] ); break;
  case 32: wit_r = &step(); break;
  case 33: wit_i[7] = rank(); wit_i[6] = nproc(); break;
  case 34: seed_entropy( (int)wit_i[0] ); break;
  case 35: wit_d = remainder( a[0], a[1] ); break;
  case 36: wit_r = define_emitter( wit_em ); break;
  case 37: wit_r = define_particle_bc( wit_b1 ); break;
  case 38: wit_r = define_collision_op( (collision_op_t *)wit_r ); break;
  case 39: abort( a[0] ); break;
  case 40: wit_i[7] = MAX_PIPELINE; wit_i[6] = max_material; break;
  case 41: define_field_array( (field_array_t *)wit_r, a[0] ); break;
  case 42: define_timestep( a[0] ); break;
  case 43: wit_r = define_material( wit_s, a[0] ); break;
  case 44: wit_r = define_material( wit_s, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8] ); break;
  case 45: define_field_array(); break;
  }
}

begin_field_injection {
}

begin_particle_collisions {
}
