import fieldan
EXPLAIN = 'For every threaded field sweep the read and write address sets of every pipeline iteration are resolved over a family of grid shapes, together with the stores, loads and helper calls the host executes between dispatch and wait. No iteration may touch an address that another iteration writes, and the host may not touch what the pipelines use before it has waited for them.'
RULES = {'iterations-independent': 'no work item touches memory that another work item of the same sweep writes', 'host-overlap': 'the host touches nothing the running pipelines use between dispatch and wait', 'waits': 'the dispatched pipelines are waited for before the function returns'}
CFGS = ['ref', 'v4sse', 'v8avx2', 'v8omp', 'v16portable']


def check(ctx):
    fieldan.all_sweeps(ctx, CFGS, {'race', 'proto'})
    ctx.ob = [o for o in ctx.ob if o[0] in RULES]
    ctx.floor('iterations-independent', 65)
    ctx.floor('host-overlap', 65)
    ctx.floor('waits', 65)
