import proj, stepan
from bndan import run_tasks

EXPLAIN = ('vpic_simulation::advance and ::initialize are evaluated as ordered value graphs on simulations built by the repository\'s constructors, over scenarios of species, operators, intervals, rounds, ranks and unfinished movers; each phase is a stand-in that records its call. '
           'The recorded sequence must equal the reference sequence of the leap-frog scheme up to exchanging phases that share no resource (declared read / write / add sets per phase).')
RULES = {
    'order': 'the phases happen as often and in the order the scheme prescribes (up to independent phases), with the right arguments',
    'arguments': 'kernels for vacuum are not used with several materials',
    'step': 'one call advances the step counter by one, or reports the end without doing anything',
    'leftover': 'particles with movers unfinished after the last boundary round are removed once, their charge left in the bound charge, all other particles kept',
}


def check(ctx):
    cfgs = ['ref', 'v8omp'] if not ctx.thorough else ['ref', 'v4sse', 'v8avx2', 'v8omp', 'v16portable']
    mods = {c: ctx.mod(c, norm=proj.NORMV) for c in cfgs}

    def one(t):
        res = []
        stepan.check(mods[t[2]], t[2], lambda *a: res.append(a), t[0], t[1])
        return res
    for c in cfgs:
        for n in mods[c]._raw:
            if stepan.short(n) in ('advance', 'initialize') and 'vpic_simulation' in n:
                ctx.saw(n)
    run_tasks(ctx, [('step', k, c) for k in stepan.STEPS for c in cfgs] + [('init', k, c) for k in stepan.INITS for c in cfgs], one)
    for r, n in (('order', 40), ('step', 30), ('leftover', 30)):
        ctx.floor(r, n)
