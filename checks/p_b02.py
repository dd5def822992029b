import sortan, proj
from bndan import run_tasks, CFGS

EXPLAIN = ('sort_p (serial legacy and threaded variant) is evaluated with its dispatched pipelines as one ordered value graph for families of cell occupations, particle numbers (zero included), grid shapes and pipeline counts in the two extreme schedules, with generic particle data; '
           'the resulting list, partition and allocations are compared with the definition of a sorted species.')
RULES = {
    'permutation': 'the particles after the sort are those before it, with all their data',
    'order': 'the voxel index does not decrease along the list',
    'partition': 'partition[v] == number of particles in voxels below v',
    'bookkeeping': 'particle number unchanged, sort time recorded',
    'memory': 'no store outside an allocated block, arrays keep their capacity',
    'waited': 'every dispatched pipeline is waited for before its results are used',
}


def check(ctx):
    mods = {c: ctx.mod(c, norm=proj.NORMV) for c in CFGS}

    def one(t):
        res = []
        sortan.check(mods[t[0]], t[0], lambda cat, *a: res.append(a), ctx.thorough)
        return res
    ctx.saw('sort_p')
    run_tasks(ctx, [(c,) for c in CFGS], one)
    for r in RULES:
        ctx.floor(r, 5)
