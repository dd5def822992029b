import proj, matan
from bndan import run_tasks

EXPLAIN = ('the constructors of materials and field arrays are evaluated as ordered value graphs for lists of one to three materials whose conductivities are zero, finite or huge along each axis (exp and sinh modelled as homomorphisms, so any algebraic form is accepted); '
           'every coefficient, the kernel table and the cleared arrays are compared with the definition.')
RULES = {
    'material': 'a material stores the constants given and gets the next number; lookups find it; duplicates are refused',
    'coefficient': 'the coefficients of material number n are decay exp(-sigma dt/eps), drive (1-decay)/(sigma dt), 1/mu, eps and the non-conducting flag of that material',
    'kernel': 'each kernel slot holds its own kernel; vacuum kernels are only used when one material fills all space',
    'clean': 'new field arrays are zero, clear_jf and clear_rhof clear exactly their components everywhere',
    'refuse': 'unusable arguments are refused',
}


def check(ctx):
    cfgs = ['ref'] if not ctx.thorough else ['ref', 'v8avx2', 'v8omp', 'v16portable']
    mods = {c: ctx.mod(c, norm=proj.NORMV) for c in cfgs}
    dims = [(2, 3, 1), (1, 1, 1)] if not ctx.thorough else [(2, 3, 1), (1, 1, 1), (3, 2, 4)]
    for f in ('material', 'append_material', 'find_material_name', 'new_standard_field_array', 'clear_jf', 'clear_rhof'):
        ctx.saw(f)

    def one(t):
        res = []
        R = lambda *a: res.append(a)
        if t[1] is None:
            matan.material(mods[t[0]], t[0], R)
        else:
            matan.fields(mods[t[0]], t[0], R, t[1], t[2])
        return res
    run_tasks(ctx, [(c, None, None) for c in cfgs] + [(c, d, s) for c in cfgs for d in dims for s in matan.SETS], one)
    ctx.floor('material', 18)
    ctx.floor('coefficient', 30)
    ctx.floor('kernel', 100)
    ctx.floor('clean', 20)
