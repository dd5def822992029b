import proj, regan, deckan
from bndan import run_tasks

EXPLAIN = ('a witness deck calls every inline helper of the simulation class; the calls and the list functions are evaluated as ordered value graphs on simulations built by the repository\'s constructors, '
           'and results, memory, lists and buffers are compared with the documented meaning, the grid helpers with the grid function they stand for.')
RULES = {
    'access': 'accessors refer to the cell, generator, step and rank asked for; time is start + steps * dt in double precision',
    'formula': 'lengths, truncation, deviates, seeds and the abort code follow their formula',
    'grid': 'grid helpers do exactly what the grid function they stand for does with the same arguments, and remember units, step and topology',
    'define': 'materials, species, arrays, handlers, emitters and collision models are made from exactly the given arguments, listed, numbered and registered',
    'list': 'lookups by name and id find the object or nothing; duplicates, nameless, foreign and missing objects are refused',
}


def check(ctx):
    cfgs = ['ref'] if not ctx.thorough else ['ref', 'v8avx2', 'v8omp', 'v16portable']
    mods = {c: ctx.mod(c, norm=proj.NORMV, wit=regan.WIT) for c in cfgs}
    raw = {c: proj.module(c, files=['src/vpic/vpic.cc'], norm=proj.NORMV, wit=regan.WIT, inline=False) for c in cfgs}
    T = [('double', c) for c in cfgs]
    for c in cfgs:
        for d in [(2, 3, 4), (1, 1, 1), (9, 1, 2), (1, 8, 1)] + ([(3, 1, 2), (1, 2, 9)] if ctx.thorough else []):
            T += [('access', c, d), ('fieldarray', c, d)]
        T += [('formula', c), ('materials', c), ('specieslist', c), ('handlers', c)]
        T += [('gridh', c, k) for k in ('periodic', 'absorbing', 'reflecting', 'size', 'join', 'fbc', 'pbc')]

    def one(t):
        res = []
        getattr(deckan, t[0])((raw if t[0] == 'double' else mods)[t[1]], t[1], lambda *a: res.append(a), *t[2:])
        return res
    ctx.saw('helpers of vpic_simulation in src/vpic/vpic.h (witness deck)')
    run_tasks(ctx, T, one)
    for r, n in (('access', 42), ('formula', 27), ('grid', 58), ('define', 70), ('list', 75)):
        ctx.floor(r, n)
