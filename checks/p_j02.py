import proj, regan
from bndan import run_tasks

EXPLAIN = ('a witness deck instantiates every region macro of deck/wrapper.h with the region and the equations as uninterpreted functions of the coordinates; the instantiations are evaluated as ordered value graphs on simulations built by the repository\'s constructors, '
           'and every field component, material, face condition and emitter component they set is compared with the rule of the macro at the staggered location of that component.')
RULES = {
    'region': 'a component is set if and only if its location (or a cell touching it) is in the region, to the value at its own location',
    'evaluated': 'the region expression is evaluated',
    'emitter': 'the emitter gets exactly the faces or cells of the region, is registered and has room for them',
}


def check(ctx):
    cfgs = ['ref'] if not ctx.thorough else ['ref', 'v8avx2', 'v16portable']
    mods = {c: ctx.mod(c, norm=proj.NORMV, wit=regan.WIT) for c in cfgs}
    dims = [((2, 3, 1), 3), ((1, 2, 2), 2)] if not ctx.thorough else [((2, 3, 1), 3), ((1, 2, 2), 2), ((3, 1, 2), 4), ((1, 1, 1), 3), ((3, 3, 3), 3)]

    def one(t):
        res = []
        regan.check(mods[t[3]], t[3], lambda *a: res.append(a), t[1], t[0], t[2])
        return res
    ctx.saw('deck/wrapper.h macros in vpic_simulation::user_initialization')
    run_tasks(ctx, [(w, d, k, c) for w in regan.CASES for d, k in dims for c in cfgs], one)
    ctx.floor('region', 20)
    ctx.floor('emitter', 8)
