import bpan, proj
from bndan import run_tasks, CFGS

EXPLAIN = ('boundary_p is evaluated as an ordered value graph for every rank of small worlds (lines, periodic pairs, tori, a single rank) and families of particle and mover lists, with generic particle data; messages are matched between the ranks by source, destination, tag and order; '
           'absorption, boundary handlers and the cell-crossing routine are recording stand-ins; the outcome of all ranks together is compared with a declarative description.')
RULES = {
    'conserve': 'final particles == those that were not at a face + everything injected locally or received',
    'absorb': 'exactly the particles at absorbing faces leave their charge (of their species) in rhob',
    'handler': 'exactly the particles at user-defined faces are given to the handler of that face, with its parameters',
    'send': 'exactly the particles at shared faces are sent, relabelled for the receiver',
    'inject': 'every injected or received particle is moved on exactly once with its remaining displacement and its species charge',
    'mover-list': 'the particles handed back again are exactly the remaining movers, in increasing order',
    'message': 'sends and receives match in size, partner and tag; buffers are large enough and untouched while in use; nothing is left under way',
    'memory': 'particle and mover arrays are grown before they overflow, no store outside an allocated block',
}


def check(ctx):
    mods = {c: ctx.mod(c, norm=proj.NORMV) for c in CFGS}

    def one(t):
        res = []
        k = bpan.check(mods[t[0]], t[0], lambda cat, *a: res.append(a), ctx.thorough)
        if min(k.values()) == 0:
            raise proj.Broken(f'the enumerated lists miss a case: {k}')
        return res
    ctx.saw('boundary_p')
    run_tasks(ctx, [(c,) for c in CFGS], one)
    for r in RULES:
        ctx.floor(r, 5)
