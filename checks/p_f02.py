import fieldan
EXPLAIN = 'Value graphs of the host function and of the scalar and vector pipelines of every field sweep are built from the LLVM IR of the current sources; loop induction variables are solved (scalar evolution), and store/load addresses are resolved to (component, voxel) over a family of grid shapes and pipeline counts. Every read of a component at a voxel that the rank does not own must be filled by the ghost exchange of that sweep and be issued after its completion.'
RULES = {'exchange-present': 'begin_remote_ghost, local_ghost, end_remote_ghost of the right kind are all called, in order', 'reads-defined': 'no store value depends on a non-owned cell unless that cell is written by the completed ghost exchange'}
CFGS = ['ref', 'v4sse', 'v8avx2', 'v8omp', 'v16portable']


def check(ctx):
    fieldan.all_sweeps(ctx, CFGS, {'ghost'})
    ctx.floor('reads-defined', 65)
    ctx.floor('exchange-present', 40)
