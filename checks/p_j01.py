import proj, regan, injan
from bndan import run_tasks

EXPLAIN = ('a witness deck calls the injection functions; inject_particle and the raw variants are evaluated as ordered value graphs on simulations built by the repository\'s constructors, for particles on every kind of place of every axis '
           '(outside, ends, cell planes, interior, far wall), with move_p and accumulate_rhob as recorded events, and the stored particle, the events and the counters are compared with the rule.')
RULES = {
    'accept': 'a particle is injected by the domain it belongs to, once, and by no other',
    'place': 'voxel and offset of the injected particle are those of its position',
    'store': 'momentum and weight are stored, other particles are not touched',
    'charge': 'the bound charge that cancels the particle is deposited if and only if asked for, before the particle moves',
    'age': 'an aged particle is moved once, with the displacement of its age, and counted as mover if unfinished',
    'room': 'a full particle array is refused',
    'evaluated': 'injection call evaluated',
}


def check(ctx):
    cfgs = ['ref'] if not ctx.thorough else ['ref', 'v4sse', 'v8avx2', 'v16portable']
    mods = {c: ctx.mod(c, norm=proj.NORMV, wit=regan.WIT) for c in cfgs}
    dims = [(2, 3, 1), (1, 2, 3)] if not ctx.thorough else [(2, 3, 1), (1, 2, 3), (1, 1, 1), (4, 1, 2)]
    walls = [(-1, 0, -3), (1, -2, 0), (0, 1, -1), (-1, -1, -1)]
    if ctx.thorough:
        walls += [(a, b, c) for a in (-1, 0) for b in (-2, 1) for c in (-3, 0)]

    def one(t):
        res = []
        R = lambda *a: res.append(a)
        if t[2] is None:
            injan.raw(mods[t[0]], t[0], R, t[1])
        else:
            injan.inject(mods[t[0]], t[0], R, t[1], t[2], ctx.thorough)
        return res
    ctx.saw('vpic_simulation::inject_particle')
    ctx.saw('vpic_simulation::inject_particle_raw')
    run_tasks(ctx, [(c, d, w) for c in cfgs for d in dims for w in walls + [None]], one)
    ctx.floor('accept', 50)
    ctx.floor('place', 20)
    ctx.floor('age', 20)
    ctx.floor('charge', 20)
