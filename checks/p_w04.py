import partan
EXPLAIN = 'For every threaded particle kernel one iteration of the vector pipeline is evaluated on a block of consecutive particles and compared with the scalar pipeline applied to the same particles one after the other: every particle component written, the order, contents and destination of the particles handed to the cell-crossing routine, the accumulator or hydro values deposited and the per-pipeline counters. Values are elements of a prime field standing for the exact real-number expressions of the value graph (identity testing of rational functions).'
RULES = {'lanes-equal-scalar': 'vector iteration == scalar iterations on the same particles, lane by lane'}


def check(ctx):
    partan.all_particles(ctx, ['v4sse', 'v8avx2', 'v8omp', 'v16portable'], {'vector'})
    ctx.floor('lanes-equal-scalar', 20)
