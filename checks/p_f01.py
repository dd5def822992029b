import fieldan
EXPLAIN = 'Value graphs of the host function and of the scalar and vector pipelines of every field sweep are built from the LLVM IR of the current sources; loop induction variables are solved (scalar evolution), and store/load addresses are resolved to (component, voxel) over a family of grid shapes and pipeline counts. Each owned component must be stored exactly once per sweep by interior plus exterior loops, and the value number of the stored value must equal that of the Yee/Marder formula (polynomial identity over a prime field).'
RULES = {'exactly-once': 'interior pipeline + host exterior loops store each owned component exactly once per sweep', 'formula': 'value number of each stored value equals that of the specified finite-difference formula', 'confined': 'a sweep does not modify cells or components it does not own', 'boundary-adjust': 'the local boundary adjustment of the component is applied', 'boundary-adjust-last': '... after all loops and pipelines of the sweep', 'helper-args': 'ghost/adjust helpers are called unconditionally on this field array and grid'}
CFGS = ['ref', 'v4sse', 'v8avx2', 'v8omp', 'v16portable']


def check(ctx):
    fieldan.all_sweeps(ctx, CFGS, {'proto', 'cover'})
    ctx.floor('exactly-once', 65)
    ctx.floor('formula', 65)
    ctx.floor('boundary-adjust', 60)
