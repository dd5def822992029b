import ckan, proj
from bndan import run_tasks
from vg import Graph

EXPLAIN = ('a simulation with every kind of checkpointed object is built by the repository\'s constructors, written with checkpt_objects to an abstract stream and read back with restore_objects and reanimate_objects, all evaluated as ordered value graphs with generic data; addresses that reach the stream are replaced by stale ones, as in another process. '
           'The restored object graph is compared with the original one cell by cell (pointers up to the renaming of blocks).')
RULES = {
    'graph': 'the restored object graph is isomorphic to the original: values, pointers, functions, sizes and alignments',
    'registry': 'order, identifiers and functions of the registered objects are kept',
    'stream': 'the reader reads exactly what the writer wrote, and no valid simulation is refused',
    'writer': 'writing a checkpoint does not change the simulation',
    'rejects': 'foreign or malformed checkpoints and pointers to unregistered objects are refused',
    'covered': 'every object registration of the source is exercised by the scenes',
}


def check(ctx):
    cfgs = ['ref', 'v8omp'] if not ctx.thorough else ['ref', 'v4sse', 'v8avx2', 'v8omp', 'v16portable']
    mods = {c: ctx.mod(c, norm=proj.NORMV) for c in cfgs}

    def one(t):
        res = []
        R = lambda *a: res.append(a)
        if t[0] == 'rejects':
            ckan.rejects(mods[t[1]], t[1], R)
        elif t[0] == 'covered':
            ckan.covered(mods[t[1]], t[1], R)
        else:
            ckan.check(mods[t[1]], t[1], R, t[0])
        return res
    for c in cfgs:
        for n in mods[c]._raw:
            if 'checkpt' in n or 'restore' in n or 'reanimate' in n:
                ctx.saw(n)
    run_tasks(ctx, [(k, c) for k in list(ckan.SHAPES) + ['rejects', 'covered'] for c in cfgs], one)
    for r, n in (('graph', 12), ('registry', 12), ('stream', 12), ('writer', 12), ('rejects', 10), ('covered', 20)):
        ctx.floor(r, n)
