import partan, pwan
EXPLAIN = 'The value graph of one iteration of every scalar particle kernel (half-step centring and un-centring, full push, energy, moment deposit) is compared, as a rational function of the particle, the interpolated fields and the species constants, with an independent statement of the scheme: field interpolation to the particle position, half electric kick, Boris rotation, half kick, position advance with the normalised velocity; kinetic energy; trilinear moment weights. The whole host functions with all pipelines (scalar and vector) are evaluated for families of particle numbers, pipeline counts, grids and schedules and compared with the treatment of each particle alone.'
RULES = {'whole-species': 'a species treated with any number of particles and pipelines fares exactly as its particles one by one (particles, energy, moments summed over the pipelines)', 'formula': 'stored particle / partial sum == specification', 'advance-push': 'momentum and displacement of advance_p == Boris push', 'no-other-effect': 'nothing else is written'}


def check(ctx):
    partan.all_particles(ctx, ['ref', 'v4sse', 'v8avx2', 'v8omp', 'v16portable'], {'formula'})
    ctx.floor('per-particle', 20)
    ctx.floor('advance-push', 5)
    pwan.run_all(ctx, ['ref', 'v4sse', 'v8avx2', 'v8omp', 'v16portable'], [n for n in pwan.FN if n != 'advance_p'])
