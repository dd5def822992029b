VG = 'static analysis: value-graph (GVN/scalar-evolution) abstract interpretation of LLVM IR'
BASE = ' Exact rational arithmetic stands for floating point (rounding and NaN are outside); loop bounds, addresses and values are resolved from the IR of the current sources, over families of concrete grid extents and pipeline counts; nothing is executed.'
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, technique=VG, note=BASE):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note))


SFA = 'src/field_advance/standard/'
SFP = SFA + 'pipeline/'

P('F01', 'Field sweeps update each owned component once, by the discretised equations',
  'In every field-solver sweep (magnetic and electric advance, curl, divergence errors, bound charge and both Marder cleanings, for general materials and for vacuum) each field component a domain owns - boundary planes included - is updated exactly once with the value the finite-difference Yee/Marder scheme prescribes, for any grid shape including one-cell-wide directions, and then the local boundary adjustment is applied to the finished sweep. No sweep changes anything it does not own.',
  ['inputs', 'configurations'], 'all field values, materials, time steps, grid shapes (including width 1), pipeline counts and build configurations',
  'The tests compare a handful of decks on one or two grid shapes; interior/exterior loop seams depend on extents and the number of pipelines, and a small coefficient slip only changes results slightly.',
  [SFP + 'advance_b_pipeline.cc', SFP + 'advance_e_pipeline.cc', SFP + 'vacuum_advance_e_pipeline.cc', SFP + 'compute_curl_b_pipeline.cc', SFP + 'vacuum_compute_curl_b_pipeline.cc', SFP + 'compute_div_e_err_pipeline.cc', SFP + 'compute_rhob_pipeline.cc', SFP + 'clean_div_b_pipeline.cc', SFP + 'clean_div_e_pipeline.cc', SFP + 'compute_div_b_err_pipeline.cc'],
  [('interior pipelines + host exterior loops', SFP), ('local_adjust_* boundary adjustments', SFA + 'local.cc')])
P('F02', 'Field sweeps only read ghost values after they have been refreshed',
  'Every field sweep that needs neighbour-plane values starts and completes the corresponding ghost exchange within the sweep (remote begin, local fill, remote end), and each update that depends on a ghost value is made only after that value was filled. No update uses a plane that neither the domain nor that exchange provides.',
  ['schedules', 'inputs', 'configurations'], 'all grid shapes, boundary placements, message arrival orders and pipeline schedules',
  'In tests stale ghost planes often still hold nearly the right values, and on a single rank with periodic boundaries an exchange in the wrong place changes nothing visible.',
  [SFP + 'advance_e_pipeline.cc', SFP + 'compute_curl_b_pipeline.cc', SFP + 'clean_div_b_pipeline.cc', SFP + 'compute_div_e_err_pipeline.cc', SFP + 'compute_rhob_pipeline.cc', SFA + 'remote.cc', SFA + 'local.cc'],
  [('begin/end_remote_ghost_*, local_ghost_*', SFA)])
P('W01', 'Threaded sweeps divide their work items exactly once among pipelines',
  'For any number of pipelines and any problem size, the voxels (or particles) handled by the dispatched pipelines together with the straggler part handled by the host are exactly the items of the sweep, each handled exactly once: none skipped, none processed twice, none outside the range. Scalar and vector kernels sweep the same items.',
  ['inputs', 'configurations', 'schedules'], 'all thread counts, particle counts and grid shapes, all vector widths',
  'Tests use a few thread counts and sizes that divide evenly or nearly so; remainders, empty pipelines and tiny grids are not sampled.',
  ['src/util/pipelines/pipelines_exec.h', 'src/util/util_base.h', SFP + 'advance_b_pipeline.cc', 'src/species_advance/standard/pipeline/advance_p_pipeline.cc'],
  [('DISTRIBUTE / DISTRIBUTE_VOXELS', 'src/util/util_base.h'), ('EXEC_PIPELINES', 'src/util/pipelines/pipelines_exec.h')])
P('W02', 'Concurrent field pipelines and the host never race within a sweep',
  'Within one threaded field sweep no work item reads or writes memory that another work item writes, the host touches nothing the running pipelines use until it has waited for them, and every sweep waits for its pipelines before it returns. Results therefore do not depend on the thread schedule.',
  ['schedules', 'inputs', 'configurations'], 'all thread interleavings, grid shapes and pipeline counts',
  'A race shows up only under particular interleavings; the tests run few threads on tiny problems.',
  [SFP, 'src/util/pipelines/pipelines_exec.h'],
  [('disjoint interior/exterior split, WAIT_PIPELINES', SFP)])
P('W03', 'Vector field kernels compute exactly what the scalar kernels compute',
  'For each field sweep that has 4-, 8- or 16-wide vector kernels, one vector iteration has the same effect on memory as the scalar kernel applied to the same consecutive voxels, wherever the block starts in the grid (row and plane wraps included), in every vector implementation the build supports.',
  ['inputs', 'configurations'], 'all field values, block positions and vector implementations',
  'Vector builds are tested by comparing a few decks with loose tolerances; the blocks that straddle a row or plane end are rare.',
  [SFP + 'advance_b_pipeline_v4.cc', SFP + 'advance_b_pipeline_v8.cc', SFP + 'advance_b_pipeline_v16.cc', SFP + 'advance_e_pipeline_v4.cc', SFP + 'clean_div_b_pipeline_v8.cc', 'src/util/v4', 'src/util/v8', 'src/util/v16'],
  [('vector pipelines and SIMD classes', SFP)])


SPP = 'src/species_advance/standard/pipeline/'
SPA = 'src/species_advance/standard/'
WHOLE = ' Ordered value graphs are evaluated by random interpretation over a prime field for families of concrete shapes (grid extents, particle placements, pipeline counts, boundary placements); field and particle data are algebraically generic, rounding and NaN are outside.'

P('F03', 'Local boundary conditions set exactly the image values on their planes',
  'For each face of a domain that carries a local boundary condition (perfect conductor, symmetric, perfect magnetic conductor, absorbing) the functions that fill ghost values (tangential magnetic field, normal electric field, magnetic divergence error) and that adjust boundary values (tangential electric field, normal magnetic field, electric divergence error, free current, free charge, bound charge) give every location of that boundary plane - and no other location, edges and corners included - the value the condition prescribes; faces shared with another domain are left alone and an unknown condition code stops the run.',
  ['inputs', 'configurations'], 'all field values, grid shapes and placements of boundary conditions',
  'The tests use periodic boxes almost exclusively; a wrong image sign or an index range one off on one face of one condition is never exercised.',
  [SFA + 'local.cc'], [('local_ghost_* / local_adjust_*', SFA + 'local.cc')], note=WHOLE)
P('M01', 'Ghost exchanges deliver the neighbour value that belongs to each ghost',
  'When the ghost planes of the tangential magnetic field, the normal electric field or the magnetic divergence error are exchanged, each domain sends through each shared face exactly the plane of values the neighbour needs, sender and receiver agree on message size, order and contents, the ghost plane receives those values (interpolated when the cell sizes differ) and nothing else changes; every begun send and receive is finished, nothing is sent through faces that are not shared, and the port layer uses for every direction the buffer, partner and tag that its partner expects.',
  ['inputs', 'configurations', 'schedules'], 'all grid shapes, all sets of shared faces, all field values',
  'Multi-rank tests use one or two decompositions, mostly of cubes split along one axis; packing mistakes for other axes or non-cubic domains go unseen.',
  [SFA + 'remote.cc', 'src/grid/grid_comm.cc'], [('begin/end_remote_ghost_*', SFA + 'remote.cc'), ('ports', 'src/grid/grid_comm.cc')], note=WHOLE)
P('M02', 'Plane synchronisation makes shared values consistent between domains',
  'After synchronising tangential electric / normal magnetic fields, free currents, charge densities or hydro moments, every value on a plane shared by two domains - edges and corners shared by more than two included - is the prescribed combination (average, or cell-size weighted sum) of the contributions of all domains that share it; local boundary conditions are applied before the exchange, nothing off the shared planes changes, messages agree in size and content, and the field synchronisation returns the global sum of the squared discrepancies.',
  ['inputs', 'configurations', 'schedules'], 'all grid shapes, sets of shared faces and boundary conditions, all values',
  'Contributions to corners and edges pass through several messages; tests do not compare those values between ranks.',
  [SFA + 'remote.cc', 'src/sf_interface/hydro_array.cc'], [('synchronize_*', SFA + 'remote.cc'), ('synchronize_hydro_array', 'src/sf_interface/hydro_array.cc')], note=WHOLE)
P('W04', 'Vector particle kernels compute exactly what the scalar kernels compute',
  'For the particle push, the half-step momentum centring and un-centring, the particle energy and the moment deposit, a 4-, 8- or 16-wide vector block of particles gets the same positions, momenta, energies, deposited currents and moments and the same particles handed over for boundary crossing, in the same order, as the scalar kernel applied to those particles one after the other.',
  ['inputs', 'configurations'], 'all particle positions and momenta, all interpolated fields, all vector implementations',
  'A wrong lane or transposed column changes a fraction of the particles slightly; tests compare with tolerances or only total energies.',
  [SPP + 'advance_p_pipeline_v4.cc', SPP + 'advance_p_pipeline_v8.cc', SPP + 'advance_p_pipeline_v16.cc', SPP + 'hydro_p_pipeline_v4.cc', SPP + 'center_p_pipeline_v4.cc', SPP + 'uncenter_p_pipeline_v8.cc', SPP + 'energy_p_pipeline_v4.cc', 'src/util/v4', 'src/util/v8', 'src/util/v16'],
  [('vector particle pipelines', SPP)])
P('K01', 'Particle kernels implement the Boris push, energy and moment formulas',
  'Each particle kernel applies exactly the published scheme to every particle: fields interpolated to the particle position, half electric kick, magnetic rotation, half electric kick, position advance by the relativistic velocity in cell units; centring and un-centring are the corresponding half steps; particle energy is the kinetic energy of the centred momentum; deposited hydro moments are the trilinear-weighted currents, charge, momentum, kinetic energy and stress; no other particle data change.',
  ['inputs', 'configurations'], 'all particle states, interpolated fields, species charges and masses, time steps and cell sizes',
  'Tests follow a few particles in uniform fields along single components; mixed-derivative terms and off-diagonal moments are not sampled.',
  [SPP + 'advance_p_pipeline.cc', SPP + 'center_p_pipeline.cc', SPP + 'uncenter_p_pipeline.cc', SPP + 'energy_p_pipeline.cc', SPP + 'hydro_p_pipeline.cc'],
  [('scalar particle pipelines', SPP)])
P('K02', 'No boundary-crossing particle is lost between push and boundary handling',
  'During the particle push every particle whose straight move leaves its cell is handed to the cell-crossing routine with its displacement and charge, every particle that routine could not finish is recorded once as a mover of the pipeline that pushed it, the mover segments of different pipelines do not overlap and stay within the mover array, movers that do not fit are counted as ignored instead of written beyond the segment, and after the push the movers of all pipelines are compacted into one gap-free list with the right count.',
  ['inputs', 'configurations', 'schedules'], 'all particle counts, pipeline counts, mover capacities and crossing patterns',
  'Few movers exist in tests and buffers are generous; gaps, empty segments and overflow are not reached.',
  [SPP + 'advance_p_pipeline.cc', SPP + 'advance_p_pipeline_v4.cc', SPP + 'advance_p_pipeline_v8.cc', SPP + 'advance_p_pipeline_v16.cc'], [('particle_mover_seg', SPP)])
P('K03', 'Cell-crossing particles follow their track and deposit in the right cells',
  'A particle displaced by any straight segment is moved cell by cell along exactly that segment: it ends at the right position in the right cell, reflects at reflecting faces with the normal momentum and remaining displacement reversed, deposits in each cell crossed exactly the current of the part of the track inside that cell, and, when a face cannot be handled by this domain, is handed back at that face with its remaining displacement, the cell-and-face code and its particle index, nothing else being changed.',
  ['inputs', 'configurations'], 'all positions, displacements (along axes, through several cells), weights and neighbour tables',
  'Tests exercise single crossings; tracks through several cells, reflections after crossings and exact axis-parallel moves in each direction are not sampled.',
  [SPA + 'move_p.cc'], [('move_p (scalar and V4)', SPA + 'move_p.cc')], note=WHOLE)
P('I01', 'Interpolation coefficients are the means and differences of the field values',
  'Loading the interpolators gives every interior cell, for any grid shape and any number of pipelines, the mean and the half-differences of the four surrounding electric edge values and the two surrounding magnetic face values of that cell, in scalar and vector variants, and touches nothing else.',
  ['inputs', 'configurations'], 'all field values, grid shapes, pipeline counts and vector variants',
  'Field gradients in tests are mostly along one axis; a swapped neighbour or coefficient in another component is invisible.',
  ['src/sf_interface/pipeline/interpolator_array_pipeline.cc', 'src/sf_interface/interpolator_array.cc'], [('load_interpolator pipelines', 'src/sf_interface/pipeline')], note=WHOLE)
P('A01', 'Accumulator and hydro blocks are cleared, summed and unloaded completely',
  'Clearing zeroes every interior cell of the current accumulators (and every voxel of the hydro arrays) in all per-pipeline blocks; reduction leaves in the first block the sum over all blocks for every interior accumulator cell (every hydro voxel), for any number of pipelines and any vector width, and unloading adds to each edge current the contributions of exactly the four cells around that edge with the right area and time-step factors, touching nothing else.',
  ['inputs', 'configurations', 'schedules'], 'all numbers of pipelines (more than the unrolled nine included), grid shapes, vector widths and accumulator contents',
  'Tests run with one to a few threads; the unrolled reduction of many blocks and odd array sizes are not covered.',
  ['src/sf_interface/pipeline/reduce_array_pipeline.cc', 'src/sf_interface/pipeline/reduce_array_pipeline_v4.cc', 'src/sf_interface/pipeline/clear_array_pipeline.cc', 'src/sf_interface/pipeline/unload_accumulator_pipeline.cc'],
  [('reduce / clear / unload pipelines', 'src/sf_interface/pipeline')], note=WHOLE)
P('D01', 'Energy and divergence diagnostics weight each owned location correctly',
  'The field energies reported per component are half of eps0 times the volume integral of the squared fields with the material coefficients of each location, each cell contributing the mean over its edges or faces; the divergence norms are the volume-weighted root mean squares in which interior, face, edge and corner nodes count fully, one half, one quarter and one eighth; sums over pipelines and over domains are complete, for any grid shape and number of pipelines.',
  ['inputs', 'configurations'], 'all field values, materials, grid shapes and pipeline counts',
  'Energies in tests are checked for a uniform vacuum; material indices and boundary weights then do not matter.',
  [SFP + 'energy_f_pipeline.cc', SFP + 'vacuum_energy_f_pipeline.cc', SFP + 'compute_rms_div_e_err_pipeline.cc', SFP + 'compute_rms_div_b_err_pipeline.cc'], [('energy and rms pipelines', SFP)], note=WHOLE)
P('C01', 'Charge is conserved: current and charge satisfy the continuity equation',
  'Over one particle step - charge deposit, particle push with cell crossings and reflections, accumulator reduction and unload, synchronisation of current and charge - the change of the charge density at every node equals minus dt times the discrete divergence of the deposited current, on periodic and on reflecting boundaries, for any grid shape, number of pipelines and vector width; free and bound charge deposits are the trilinear weights of the particle.',
  ['inputs', 'configurations', 'histories'], 'all particle positions, momenta, weights and fields, grid shapes, boundaries and pipeline counts',
  'A small deposit error shows up only as slowly growing divergence error, which the tests and the built-in divergence cleaning mask.',
  [SPA + 'rho_p.cc', SPA + 'move_p.cc', SPP + 'advance_p_pipeline.cc', 'src/sf_interface/pipeline/unload_accumulator_pipeline.cc', SFA + 'remote.cc'], [('advance_p, move_p, accumulate_rho_p, unload_accumulator', SPA)], note=WHOLE)

P('G01', 'Grid decomposition tiles the box and links neighbour cells reciprocally',
  'For every rank of any topology, partitioning a periodic, absorbing or metal box gives each rank its own equal part of the global box (bounds, cell sizes, volume, cell counts and strides), these parts tile the box without gap or overlap, the global cell ranges are consecutive, every cell face leads to exactly the adjacent global cell (through periodic wraps and rank boundaries, and back again across the opposite face) or carries the wall condition asked for, and each domain face exchanges with exactly the rank on its other side; joining domains and setting face conditions change just that face, and impossible decompositions are refused.',
  ['inputs', 'configurations'], 'all cell counts, rank topologies, box bounds, boundary kinds and ranks',
  'Tests run on one or two ranks with one shape; asymmetric topologies, one-cell directions and higher ranks are never built.',
  ['src/grid/partition.cc', 'src/grid/ops.cc', 'src/grid/grid_structors.cc'], [('partition_*_box', 'src/grid/partition.cc'), ('join_grid, set_fbc, set_pbc, size_grid', 'src/grid/ops.cc')], note=WHOLE)

P('B01', 'Particles at domain faces and walls are handed over without loss',
  'Every particle the push could not finish moving is, in the boundary step, exactly once absorbed (leaving its charge in the bound charge), handed to the user handler of that face, or sent to the neighbour domain behind that face, relabelled for the receiving domain with its remaining displacement; every particle injected by a handler or received is appended once to its species and moved on; all other particles keep their data, freed slots are back-filled, arrays grow before they overflow, messages between ranks match, and particles handed back again become the new, ordered mover list.',
  ['inputs', 'configurations', 'histories'], 'all particle and mover lists, species orders, rank topologies and outcomes of the moves',
  'Particles crossing in the same step in several species, all particles leaving, shrinking and growing arrays and several boundary handlers at once are not reached by the tests.',
  ['src/boundary/boundary_p.cc', 'src/boundary/boundary.h', 'src/species_advance/species_advance_aos.h'], [('boundary_p', 'src/boundary/boundary_p.cc')], note=WHOLE)

P('B02', 'Sorting a species permutes its particles and partitions them by voxel',
  'After sorting a species the particle list is a permutation of the list before (every particle keeps all its data), particles appear in increasing voxel order, and the partition array gives for every voxel the index of its first particle - equal to the number of particles in lower voxels, empty voxels, ghost voxels and species without particles included - for the serial and the threaded sort, in place or out of place, with any number of threads; nothing is written outside the arrays and no thread of the sort is left running.',
  ['inputs', 'configurations', 'schedules'], 'all particle numbers and occupations, grid shapes, thread counts and sort variants',
  'Tests sort a few well-filled cells with one or two threads; empty species, more threads than cells and the legacy sort are not compared with the definition.',
  [SPA + 'sort_p.cc', SPP + 'sort_p_pipeline.cc', SPP + 'spa_private.h'], [('sort_p, coarse_count / coarse_sort / subsort pipelines', SPP + 'sort_p_pipeline.cc')], note=WHOLE)

P('R01', 'A restored simulation equals the one that was checkpointed',
  'Writing a checkpoint and restoring it (in another process, where every address differs) gives back the whole simulation: every registered object (simulation record, grid, message buffers, random generators and pools, materials, fields with their material coefficients and kernel functions, interpolators, accumulators, hydro arrays, species with particles, movers and partition, particle boundary handlers, emitters, collision operators, dispatchers) has the same values, every pointer and function in it refers to the restored counterpart, every array keeps its size and alignment, object identifiers and order are kept, the reader consumes exactly what was written, and writing a checkpoint does not change the simulation. Restoring on another number of ranks, on another rank or from a malformed stream is refused.',
  ['crash points', 'inputs', 'histories'], 'all simulation states that can be checkpointed',
  'Tests restart one deck; an object kind, field or pointer that is dropped or restored in the wrong order only shows for decks that use it.',
  ['src/util/checkpt/checkpt.cc', 'src/util/checkpt/checkpt_io.h', 'src/vpic/vpic.cc', 'src/grid/grid_structors.cc', 'src/species_advance/species_advance.cc', SFA + 'sfa.cc', 'src/collision/collision.cc', 'src/boundary/boundary.cc', 'src/emitter/emitter.cc', 'src/util/mp/DMPPolicy.h', 'src/util/rng/rng_pool.cc'],
  [('checkpt / restore / reanimate functions of every object', 'src/util/checkpt/checkpt.cc')], note=WHOLE)

P('T01', 'Time steps and initialisation run every phase in the order of the scheme',
  'Every call of advance either reports the end of the run and does nothing, or performs one leap-frog step and advances the step counter by one: due sorts of each species, clearing of the accumulators, collision operators and hook, particle push of each species, emitters and injection hook, reduction of the accumulators, the boundary rounds, clearing, unloading and synchronising the current (for runs without species too), current hook, half magnetic advance, full electric advance, field hook, half magnetic advance, divergence cleaning of E (with fresh charge density) and of B with the requested number of rounds at their intervals, synchronisation of shared fields at its interval, interpolator load, and diagnostics after the step counter advanced; phases that share no data may be exchanged. Particles whose movers are still unfinished after the last boundary round are removed exactly once and their charge is left in the bound charge. Initialisation performs the hook, synchronisation, cleaning, curl, bound charge and un-centring phases in their order, the same on every rank.',
  ['histories', 'configurations', 'inputs'], 'all step numbers, intervals, round counts, ranks, species counts, operator lists and numbers of unfinished movers',
  'A phase in the wrong place, missing for one interval or repeated changes results only in the truncation error or only in decks that use it; the regression decks use few of the intervals.',
  ['src/vpic/advance.cc', 'src/vpic/initialize.cc', 'src/vpic/vpic.h', SFA + 'sfa.cc'],
  [('vpic_simulation::advance', 'src/vpic/advance.cc'), ('vpic_simulation::initialize', 'src/vpic/initialize.cc')],
  technique='static analysis: typestate / event-order analysis of the driver functions on their ordered effect graphs (Mazurkiewicz trace equivalence)', note=WHOLE)

P('J01', 'Particle injection puts each particle in its place in exactly one domain',
  'inject_particle injects a particle if and only if its position belongs to the local domain (lower end included; upper end included only where no neighbour shares it), so that of all domains exactly one takes it; the stored voxel and offset are those of the position, momentum, weight and all other particles are kept, the bound charge cancelling the particle is deposited exactly when requested and before it moves, an aged particle is moved once with the displacement c dt age u/gamma in cell units and counted as a mover when unfinished, and neither the particle nor the mover array is written beyond its size. The raw variants store exactly what they are given.',
  ['inputs', 'configurations'], 'all positions, momenta, ages, grid shapes and upper-end conditions, and all array fill levels',
  'Decks inject strictly inside the domain and rarely age particles; positions on domain ends, full arrays and unfinished moves are not reached by the tests.',
  ['src/vpic/misc.cc', 'src/vpic/vpic.h'], [('vpic_simulation::inject_particle', 'src/vpic/misc.cc'), ('inject_particle_raw', 'src/vpic/vpic.h')], note=WHOLE)

P('J02', 'Deck region macros set exactly the locations inside the region',
  'The region macros of deck/wrapper.h (set_region_field, set_region_material, set_region_bc, their point variants, define_surface_emitter and define_volume_emitter) set every field component, material and boundary face whose location is in the region by the rule of the macro - and no other - to the value of the expression at the location of that component, priority of interior over surface respected and unset (NULL) choices leaving values alone; emitters get exactly the faces or cells of the region and are registered.',
  ['inputs', 'configurations'], 'all regions, field expressions, materials, boundary conditions and grid shapes',
  'Tests use regions that fill the domain and uniform fields; a location that is half a cell off, a missed face or a wrong priority needs a region edge and a field that varies.',
  ['deck/wrapper.h', 'src/emitter/emitter.cc', 'src/boundary/boundary.cc', 'src/material/material.cc'], [('region macros', 'deck/wrapper.h')], note=WHOLE)

P('J03', 'Deck helpers and named lists do exactly what the deck asks',
  'The helpers a deck calls answer from the state of the simulation: field, interpolator, hydro and voxel address the cell of the given indices, rng and sync_rng that generator of the local or the common pool, step, rank and nproc those of the run, time is t0 + steps dt in double precision, courant_length is 1/sqrt(sum (n/L)^2) over the resolved axes, uniform, normal, remainder and trunc_granular follow their formula, seed_entropy seeds both pools, each as what it is. The grid helpers do what the grid function they stand for does with the same arguments, and the topology, units and time step given are kept. Materials, species, boundary handlers, emitters and collision models are made from exactly the given arguments (isotropic values on every axis, documented defaults, a default number of movers, room for all particles), get consecutive ids (handlers below the built-in conditions), are listed and registered once and found by name and id; unknown names find nothing; nameless, duplicate, foreign, surplus or missing objects are refused and nothing gets into a list twice. define_field_array makes the four arrays on the grid of the simulation - or takes the one given -, with the damping given and message buffers for a hydro plane per face, and is refused before grid and materials.',
  ['inputs', 'configurations', 'histories'], 'all arguments, grid shapes, ranks and orders of calls',
  'Every deck goes through these helpers with one set of arguments; a default, a lookup among several objects, a repeated definition or an anisotropic constant is not what the regression decks use.',
  ['src/vpic/vpic.h', 'src/species_advance/species_advance.cc', 'src/material/material.cc', 'src/boundary/boundary.cc', 'src/emitter/emitter.cc', 'src/collision/collision.cc'],
  [('inline helpers of vpic_simulation', 'src/vpic/vpic.h'), ('append_*, find_*, num_*', 'src/species_advance/species_advance.cc')], note=WHOLE)

P('S01', 'Field arrays carry the coefficients of the deck materials and start clean',
  'A field array created for a list of materials holds, at the number of each material, the coefficients of that material - decay exp(-sigma dt/eps), drive (1-decay) eps0/(sigma dt) with its limits 1/eps for insulators and 0 for perfect conductors, 1/mu, eps and the flag that suppresses divergence cleaning in conductors -, the given damping, all components zero and in each kernel slot that kernel, vacuum variants only when a single material fills all space; materials keep the constants given, are numbered consecutively, found by name and number, and duplicates or unusable arguments are refused. clear_jf and clear_rhof zero exactly the free current and the free charge of every voxel.',
  ['inputs', 'configurations'], 'all material lists, anisotropic constants, conductivities and grid shapes',
  'Tests use one or two insulating materials; a coefficient of one axis that uses the constants of another is only seen with anisotropic conductors.',
  [SFA + 'sfa.cc', 'src/material/material.cc'], [('create_sfa_params, new_standard_field_array, clear_jf, clear_rhof', SFA + 'sfa.cc'), ('material, append_material', 'src/material/material.cc')], note=WHOLE)

P('X01', 'Collision operators pair, rate and scatter particles by their model',
  'A collision operator acts exactly in the steps its interval selects and, where it pairs by voxel, only after its species were sorted in this step. The unary model tests each particle once with probability rate dt interval; the binary model tests, in each voxel, round(sample max(nk,nl)) (round(sample nk/2) within a species) pairs drawn from all particles of that voxel, with probability max(wk,wl) rate dt interval pairs/(dV candidates), a zero probability never and a certain one always colliding, and updates the lighter particle always and the heavier with the ratio of the weights. Langevin applies u := decay u + drive n with decay = exp(-nu dt interval) and drive^2 = (1-decay^2) kT/(m c^2). Takizuka-Abe pairs the particles of a voxel by its rule and scatters each pair by the drawn deviate; hard sphere and large-angle Coulomb collisions, off particles or a fluid, use their rate constants and impact parameters. All momentum transfers conserve momentum for equal weights and the magnitude of the relative momentum, change nothing but momenta, and draw from the generator of the pipeline that owns the voxel.',
  ['inputs', 'configurations', 'schedules'], 'all particle momenta, masses, charges, weights, voxel occupations, pipeline counts and random numbers',
  'The tests apply one collision model with equal weights and compare averages with a wide tolerance; boundary deviates, odd occupations, unequal weights and fluid backgrounds are not sampled.',
  ['src/collision/collision.cc', 'src/collision/unary.cc', 'src/collision/binary.cc', 'src/collision/langevin.cc', 'src/collision/takizuka_abe.cc', 'src/collision/hard_sphere.cc', 'src/collision/large_angle_coulomb.cc', 'src/collision/pipeline'],
  [('binary_pipeline_scalar', 'src/collision/pipeline/binary_pipeline.cc'), ('takizuka_abe_pipeline_scalar', 'src/collision/pipeline/takizuka_abe_pipeline.cc'), ('collision functions', 'src/collision/hard_sphere.cc')], note=WHOLE)

P('E01', 'Boundary handlers and emitters inject and account particles by their rule',
  'A maxwellian_reflux boundary returns for each particle that hits it exactly one injector with its place, weight, voxel and species, a momentum directed into the domain with normal part ut_para sqrt(2 e) and transverse parts ut_perp n of the temperatures set for that species, and the displacement the new momentum covers in the remaining part of the step; absorb_tally injects nothing, counts the particle for its species and adds its charge to the bound charge once. The Child-Langmuir emitter emits, on each face of its region whose outward accelerating field exceeds the threshold and on no other, the given number of particles (as far as there is room) on that face of that cell, uniformly placed, with half-Maxwellian momentum into the domain and the weight of the Child-Langmuir law, leaves the opposite bound charge, ages each particle by a uniform part of the step through move_p with the charge of the species and keeps the movers of unfinished ones, and writes nothing else.',
  ['inputs', 'configurations'], 'all particles, faces, temperatures, fields, grid spacings, random deviates and array fill levels',
  'No stable test uses reflux temperatures per species, absorb tallies or emitters with anisotropic cells; full arrays and each of the six faces are not reached.',
  ['src/boundary/maxwellian_reflux.cc', 'src/boundary/absorb_tally.cc', 'src/emitter/child_langmuir.cc', 'src/emitter/emitter.cc'],
  [('interact_maxwellian_reflux', 'src/boundary/maxwellian_reflux.cc'), ('interact_absorb_tally', 'src/boundary/absorb_tally.cc'), ('emit_child_langmuir', 'src/emitter/child_langmuir.cc')], note=WHOLE)

P('U01', 'No computation uses unset locals, argument blocks or message arguments',
  'In every function of the library and every kernel variant: no value that is computed with, stored, passed or branched on is a local variable left unassigned on every path; each field of an argument block that a dispatched pipeline or callee reads has been set by the function that built the block; a constructor assigns or clears every scalar member of the structure it allocates; and each formatted message is given as many arguments, of the types, as its format converts.',
  ['inputs', 'configurations'], 'all functions of all compiled kernel configurations, on every path',
  'Uninitialised storage often holds the expected value in a test process, and error messages are only formatted when something already failed.',
  ['src', 'src/util/util_base.h'], [('pipeline argument blocks', SFA + 'pipeline'), ('ERROR / WARNING / MESSAGE', 'src/util/util_base.h')],
  technique='static analysis: def-use analysis on SSA form, interprocedural read/write sets of argument blocks, format-string typing', note=BASE)
P('V01', 'Vector class operations compute the scalar operation in every lane',
  'Every operation the v4, v8 and v16 classes declare (arithmetic, comparisons, logic, shifts, masks, math functions, loads, stores, copies, swaps and all transposed accesses) writes, lane by lane, what the scalar operation writes, and touches no other memory, in each implementation: portable, SSE, AVX and AVX2 for v4; portable, AVX and AVX2 for v8; portable and AVX-512 for v16. Approximate reciprocals count as their exact value; rounding and NaNs are outside.',
  ['inputs', 'configurations'], 'all lane values and masks, all operations, all vector implementations', 'The SIMD unit tests run only for the implementation compiled in, on a few sample lanes, and never run the AVX-512 one.',
  ['src/util/v4', 'src/util/v8', 'src/util/v16'], [('v4/v8/v16 int and float classes', 'src/util/v4/v4_sse.h'), ('transposed accesses', 'src/util/v8/v8_avx2.h')],
  technique='static analysis: ordered value graphs of generated witness pairs (vector operation, lane-wise scalar definition) over the compiled IR', note=BASE)

P('Q01', 'Random generators: stream, deviates, seeding, normals and permutations',
  'The state refresh is the SFMT recurrence (SSE2 and portable forms); an integer draw returns the next aligned bytes of the stream, refreshing exactly when they are used up, non-negative for signed types; array fills draw in order at the stride and write nothing else; real deviates are uniform on the documented lattice of (0,1), [0,1), (0,1] or [0,1], exactly represented; exponentials are minus the log of (0,1]; normals follow the ziggurat (tables, acceptance, wedge, tail, sign); seeding is the documented expansion with the period certified; a pool gives all local generators of all ranks distinct seeds and synchronous ones equal seeds on every rank; randperm and shuffle reach every order with exactly equal probability and tear nothing.',
  ['inputs', 'histories'], 'all seeds and generator states; ranks and pool sizes enumerated to 5 and 4, permutations to 5 elements (6 thorough)',
  'Bias, shared seeds and skipped draws pass any test that looks at a few values; the unit tests only compare moments.',
  ['src/util/rng'], [('RNG_NEXT / sfmt_next / conversions', 'src/util/rng/rng_private.h'), ('generators, shuffle, randperm', 'src/util/rng/rng.cc'), ('pool seeding', 'src/util/rng/rng_pool.cc')],
  technique='static analysis: abstract interpretation of the IR with GF(2)-affine bit vectors, affine integers and reals, forking on unknown branches', note=BASE)

P('Y01', 'Dump files hold the header, the data and the order their format prescribes',
  'Every binary dump (grid, fields, hydro moments, particles, strided and banded field and hydro dumps) is one file per rank of the documented name holding the compatibility words, type, step, sizes, spacings, origin, constants, rank and species of the header, the array header, and then every element in order: whole arrays, for each selected variable the whole grid, or the planes a stride describes, from the simulation or from the array the caller gives, hydro moments accumulated for the named species, particles centred in copies. Text dumps (energies, species, materials, global header) hold every entry in order, written by rank 0 while all ranks take part in the sums. Unknown species, strides that do not divide the grid, missing names and files that cannot be opened or completed are refused; the simulation is unchanged.',
  ['inputs', 'histories'], 'generic data; enumerated grids, ranks, strides, variable masks, formats, particle counts around the buffer size',
  'Tests never read a dump back; a wrong stride, mask or header field only shows in post-processing.',
  ['src/vpic/dump.cc', 'src/vpic/dumpmacros.h', 'src/util/io'], [('dump functions', 'src/vpic/dump.cc'), ('header layout', 'src/vpic/dumpmacros.h'), ('file access', 'src/util/io/StandardIOPolicy.h')],
  technique='static analysis: ordered value graphs of the dump functions against the file layout, with an abstract file system', note=BASE)
P('M03', 'Message layer: each operation is its MPI call, buffers grow safely, errors show',
  'Barriers, sums, gathers and blocking transfers are exactly the MPI call they stand for (buffers, counts, types, operation, root, peer, tag, communicator). Port buffers are at least the size asked for, aligned to 128 bytes, keep their contents when they grow, are left alone when large enough and freed once; non-blocking transfers use the buffer, size and request of their port, and a received message of another size than announced, a transfer larger than the buffer, unknown ports or ranks and invalid arguments are refused. No error reported by MPI goes unnoticed. Booting duplicates the world and takes rank and size from it; halting undoes it.',
  ['inputs', 'histories'], 'ranks of worlds of 1 and 3, every port count and size enumerated in histories of 48 operations; sizes below 2^30',
  'All exchanges trust this layer; a wrong count, type or slot only fails for particular sizes and rank counts.',
  ['src/util/mp'], [('DMPPolicy', 'src/util/mp/DMPPolicy.h'), ('entry points', 'src/util/mp/mp.cc')],
  technique='static analysis: ordered value graphs of the layer with stand-ins recording MPI calls', note=BASE)
P('P01', 'Every pipeline of a dispatch runs exactly once before the wait returns',
  'Booting a dispatcher starts one ready worker per pipeline (one less if the host takes part). A dispatch runs the pipeline function exactly once for every pipeline number, each with its own argument record, number and count; the wait that follows returns when all of them are done and never before, for every speed of the workers, and always returns if the pipelines do. A worker runs each job once, reports it afterwards, ignores spurious wakeups and ends when told; halting ends, joins and frees every worker, after which the dispatcher can be booted again. Nothing a worker shares with the host is written without its lock. Calls before boot, while busy or from another thread, invalid pipeline counts and failures of the thread library end in an error, never in silence.',
  ['schedules', 'histories'], 'workers that run at once, late or in any order; 1 to 5 pipelines with and without the host, histories of six dispatches, halt and second boot',
  'The interleavings that lose a wakeup or end a wait early are rare on a quiet test machine.',
  ['src/util/pipelines'], [('boot, dispatch, wait, halt, worker loop', 'src/util/pipelines/pipelines_thread.cc'), ('serial dispatcher', 'src/util/pipelines/pipelines_serial.cc'), ('OpenMP helper', 'src/util/pipelines/pipelines_helper.cc')],
  technique='static analysis: assume-guarantee evaluation of ordered value graphs of host and worker, lock ownership of written fields', note=BASE)
P('L01', 'A run starts, ends and cleans up completely; options and memory are exact',
  'A run boots its services, builds or restores the simulation (each rank from the file its own checkpoint wrote, all ranks together), applies modifications, advances until it is done, finalizes, destroys the simulation and halts. Destroying a simulation, built or restored, with any mix of materials, species, boundary handlers, emitters and collision models, frees every block exactly once by the matching kind of free and leaves nothing of it registered for checkpoints, so that the services can halt. Command-line options are removed with exactly their values, the rest keeps its order, and the last value or the default counts; old-style options are refused. Allocations have the size and alignment asked for; an impossible one ends the run.',
  ['inputs', 'histories'], 'eight kinds of simulations; every command line of up to 3 words (5 thorough) over an alphabet of keys, near-keys and values; alignments 1 to 4096 against heap addresses of every residue class used',
  'Tests never check the end of a run; a leaked registration turns a finished production run into an error exit.',
  ['deck', 'src/vpic/vpic.cc', 'src/util/boot.cc', 'src/util/util_base.cc'], [('main, checkpt', 'deck/main.cc'), ('destructor', 'src/vpic/vpic.cc'), ('delete_* functions', 'src/collision/collision.cc'), ('boot and halt', 'src/util/boot.cc'), ('command line and memory', 'src/util/util_base.cc')],
  technique='static analysis: ordered value graphs with a heap of block states and an object registry, enumerated arguments', note=BASE)

NA = []


def N(id, title, statement, over, qtext, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, reason=reason))


N('N01', 'Total energy is conserved over long runs to the accuracy of the scheme',
  'Over any number of steps of a closed system the sum of field and particle energy stays within the bound the scheme promises.',
  ['histories', 'inputs'], 'all initial conditions and run lengths', 'Tests run a few steps.', ['src/vpic/advance.cc'], [('time step', 'src/vpic/advance.cc')],
  'quantifies over accumulated floating-point and discretisation error of a trajectory; no sound static bound is in reach')
