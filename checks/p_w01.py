import fieldan, partan, widan, proj
EXPLAIN = 'Value graphs of the host functions and of the scalar and vector pipelines of every threaded sweep (field kernels and particle kernels) are built from the LLVM IR of the current sources in every build configuration. The range of work items of each pipeline is resolved from its loop bounds, cursor initialisation and read set for families of problem sizes and pipeline counts; their union must be every item exactly once, with the straggler pipeline run by the host.'
RULES = {'straggler-call': 'dispatch covers ranks 0..N-1 and the host runs rank N on the same argument block under the same condition', 'partition': 'per-pipeline counts sum to the same total for every pipeline count and every pipeline starts where the previous one stopped', 'cursor-step': 'the voxel cursor invariant is inductive: each iteration ends at the next voxel (row and plane wrap included)', 'vector-range': 'vector pipelines and the scalar straggler sweep the same box', 'exact-shares': 'in every pipeline function a share of a count is computed in double precision and no count or index passes through an 8- or 16-bit integer', 'particles-once': 'the particle ranges of pipelines and straggler partition the particle list'}
CFGS = ['ref', 'v4sse', 'v8avx2', 'v8omp', 'v16portable']


def check(ctx):
    fieldan.all_sweeps(ctx, CFGS, {'dist'}, sizes=[(5, 4, 3), (3, 1, 2)])
    partan.all_particles(ctx, CFGS, {'dist'})
    widan.shares(ctx, [(c, ctx.mod(c, norm=proj.NORMV)) for c in CFGS])
    ctx.floor('exact-shares', 150)
    ctx.floor('straggler-call', 90)
    ctx.floor('partition', 89)
    ctx.floor('cursor-step', 89)
    ctx.floor('particles-once', 25)
