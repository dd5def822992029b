import contan, sfan, sfrun, bndan, proj
EXPLAIN = ('Charge deposit (accumulate_rho_p, synchronize_rho), particle advance with its cell-crossing tracks (scalar and vector pipelines, stragglers), accumulator reduction and unload and synchronize_jf are composed as ordered value graphs and evaluated for '
           'families of grids, particle sets, pipeline counts, periodic and reflecting boundaries; at every node of the grid the change of the charge density plus dt times the divergence of the current must vanish identically (exact rational arithmetic). '
           'accumulate_rho_p and accumulate_rhob are also compared directly with the trilinear weights (with the boundary doubling of the bound charge).')
RULES = {'continuity': 'rho(t+dt) - rho(t) + dt div J == 0 at every node', 'whole-sweep': 'charge deposited == trilinear weights times q w / V', 'waited': 'pipelines waited for'}


def check(ctx):
    sfrun.sweeps(ctx, list(sfan.RHO))
    mods = {c: ctx.mod(c, norm=proj.NORMV) for c in bndan.CFGS}

    def one(t):
        res = []
        contan.check(mods[t[0]], t[0], lambda cat, *a: res.append(a), ctx.thorough)
        return res
    for f in ('advance_p', 'move_p', 'reduce_accumulator_array', 'unload_accumulator_array', 'synchronize_jf', 'synchronize_rho', 'accumulate_rho_p'):
        ctx.saw(f)
    bndan.run_tasks(ctx, [(c,) for c in bndan.CFGS], one)
    ctx.floor('continuity', 5)
