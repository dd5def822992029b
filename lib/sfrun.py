import sfan, bndan, proj
from bndan import CFGS, run_tasks


def sweeps(ctx, names):
    mods = {c: ctx.mod(c, norm=proj.NORMV) for c in CFGS}

    def one(t):
        res = []
        sfan.sweep(mods[t[1]], t[1], lambda cat, *a: res.append(a), names=[t[0]], thorough=ctx.thorough)
        return res
    for n in names:
        ctx.saw(n)
    run_tasks(ctx, [(n, c) for n in names for c in CFGS], one)
    ctx.floor('whole-sweep', 5 * len(names))
    ctx.floor('waited', 5 * len(names))
