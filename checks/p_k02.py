import partan, pwan
EXPLAIN = ('The push pipelines (scalar and vector) and their host are analysed as value graphs: which particles go to the cell-crossing routine with which arguments, how its verdict is turned into an entry of the mover segment, into the ignored count or into nothing, '
           'how the mover array is divided among the pipelines (for many particle counts, capacities and pipeline counts), and how the host closes the gaps between the segments and sums the counts. The whole push with all pipelines is also evaluated for families of particle numbers, capacities, pipeline counts, grids and schedules and compared with the push of each particle alone.')
RULES = {'whole-species': 'a species pushed with any number of particles, pipelines and enough movers fares exactly as its particles one by one (particles, movers, currents summed over the pipelines)', 'segment-recorded': 'nm / n_ignored / pm of the segment describe what the pipeline wrote', 'segments-disjoint': 'segments of different ranks do not overlap and stay inside the array',
         'compaction': 'host leaves one gap-free list with the total count', 'advance-deposit': 'particles staying in their cell deposit the track current there', 'advance-handover': 'particles leaving the cell are handed over with displacement, index and charge; stored once or counted as ignored', 'advance-push': 'push'}


def check(ctx):
    partan.all_particles(ctx, ['ref', 'v4sse', 'v8avx2', 'v8omp', 'v16portable'], {'formula', 'mover'}, ['advance_p'])
    ctx.floor('segment-recorded', 18)
    for r in ('segments-disjoint', 'compaction', 'advance-deposit', 'advance-handover'):
        ctx.floor(r, 5)
    pwan.run_all(ctx, ['ref', 'v4sse', 'v8avx2', 'v8omp', 'v16portable'], ['advance_p'])
