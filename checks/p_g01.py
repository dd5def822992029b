import gridan, proj, widan
from bndan import run_tasks

EXPLAIN = ('partition_periodic_box, partition_absorbing_box and partition_metal_box are evaluated as ordered value graphs for every rank of families of topologies (asymmetric ones, one-wide directions and odd cell counts included), the box bounds being generic numbers; join_grid, set_fbc, set_pbc and size_grid likewise; '
           'the resulting geometry, neighbour table, cell ranges and boundary codes of all ranks together are compared with the tiling of the global box.')
RULES = {
    'geometry': 'cell sizes, counts, strides, bounds and cell volume of every rank == its part of the global box',
    'domains': 'the domains of all ranks tile the global box without gaps or overlap',
    'precision': 'positions and sizes are computed in double precision from the global box',
    'face': 'each face of each rank gets the neighbour rank or boundary code of its position in the topology',
    'neighbour': 'the 6 neighbour entries of each voxel == the global voxel of the adjacent cell or the boundary code',
    'reciprocity': 'neighbour of neighbour is the cell itself, across ranks and periodic wraps included',
    'memory': 'no store outside the allocated neighbour table or grid record',
    'grid-op': 'join_grid / set_fbc / set_pbc / size_grid change exactly the entries of their face',
    'rejects': 'inconsistent arguments are refused',
}


def check(ctx):
    cfgs = ['ref', 'v8omp'] if not ctx.thorough else ['ref', 'v4sse', 'v8avx2', 'v8omp', 'v16portable']
    mods = {c: ctx.mod(c, norm=proj.NORMV) for c in cfgs}

    def one(t):
        res = []
        R = lambda cat, *a: res.append(a)
        if t[0] == 'ops':
            gridan.ops(mods[t[1]], t[1], R)
        else:
            gridan.box(mods[t[1]], t[1], R, t[0], ctx.thorough)
        return res
    run_tasks(ctx, [(k, c) for k in ('periodic', 'absorbing', 'metal', 'ops') for c in cfgs], one)
    for c in cfgs:
        for k in ('partition_periodic_box', 'partition_absorbing_box', 'partition_metal_box'):
            f = mods[c].func(k)
            bad = list(widan.fraction(f))
            ctx.expect(not bad, 'precision', f'{k}/{c}', f.loc(bad[0][0]) if bad else f'{f.file}:{f.line}', bad[0][1] if bad else '')
    for k in ('partition_periodic_box', 'partition_absorbing_box', 'partition_metal_box', 'join_grid', 'set_fbc', 'set_pbc', 'size_grid'):
        ctx.saw(k)
    for r in ('geometry', 'domains', 'face', 'neighbour', 'reciprocity', 'memory', 'rejects'):
        ctx.floor(r, 6)
    ctx.floor('grid-op', 8)
