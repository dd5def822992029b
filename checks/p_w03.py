import fieldan
EXPLAIN = 'Value graphs of the host function and of the scalar and vector pipelines of every field sweep are built from the LLVM IR of the current sources; loop induction variables are solved (scalar evolution), and store/load addresses are resolved to (component, voxel) over a family of grid shapes and pipeline counts. For every window of W consecutive voxels the memory transfer of one vector iteration must equal the composition of W scalar iterations, address by address, as value numbers.'
RULES = {'lanes-equal-scalar': 'vector kernel iteration == W scalar iterations'}
CFGS = ['ref', 'v4sse', 'v8avx2', 'v8omp', 'v16portable']


def check(ctx):
    fieldan.all_sweeps(ctx, CFGS, {'vector'})
    ctx.floor('lanes-equal-scalar', 24)
