import proj, emian
from bndan import run_tasks

EXPLAIN = ('the reflux and absorb handlers and the Child-Langmuir emitter are made by their constructors on a simulation built by the repository and applied as ordered value graphs; '
           'random generators return chosen values, move_p and accumulate_rhob are events with their arguments and the particle at that time. The resulting injector, tally, particles, movers and all other memory are compared with the rule.')
RULES = {
    'reflux': 'one injector with place, weight and species of the particle, the half Maxwellian momentum into the domain, and the displacement of the remaining time',
    'absorb': 'the particle is counted for its species, its charge added to the bound charge once, nothing injected',
    'emit': 'as many particles as asked for and room allows, on the face, by the Child-Langmuir law, neutral overall, aged',
}


def check(ctx):
    cfgs = ['ref', 'v4sse', 'v8omp'] if ctx.thorough else ['ref']
    mods = {c: ctx.mod(c, norm=proj.NORMV) for c in cfgs}
    T = []
    for c in cfgs:
        for face in range(6):
            for s in range(6 if not ctx.thorough else 18):
                T.append(('reflux', c, face, s))
        for s in range(6):
            T.append(('absorb', c, s))
        faces = [[(a, s)] for a in range(3) for s in (-1, 1)]
        for k, f in enumerate(faces):
            for how in ('above', 'equal', 'below', 'reverse'):
                for s in range(2 if not ctx.thorough else 6):
                    T.append(('emit', c, f, s + k, 1 + (k + s) % 3, 8, 8, (k + s) % 2, how))
        for k, f in enumerate(faces):
            T.append(('emit', c, f, k + 3, (5, 9, 17, 6, 33, 12)[k], 80, 80, k % 2, 'above'))
        mix = [(0, -1), (1, None), (2, 1), (1, -1)]
        for s in range(4):
            for room, rm in ((20, 20), (4, 20), (5, 3), (20, 2), (0, 5), (20, 0)):
                T.append(('emit', c, mix, s, 2, room, rm, s // 2 % 2, 'above'))
        T.append(('emit', c, [], 1, 2, 5, 5, 0, 'above'))

    def one(t):
        res = []
        getattr(emian, t[0])(mods[t[1]], t[1], lambda *a: res.append(a), *t[2:])
        return res
    for f in ('interact_maxwellian_reflux', 'maxwellian_reflux', 'set_reflux_temp', 'interact_absorb_tally', 'absorb_tally', 'get_absorb_tally', 'emit_child_langmuir', 'child_langmuir', 'size_emitter', 'apply_emitter_list'):
        ctx.saw(f)
    run_tasks(ctx, T, one)
    for r, n in (('reflux', 30), ('absorb', 6), ('emit', 50)):
        ctx.floor(r, n)
