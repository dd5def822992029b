import proj, vecan
from bndan import run_tasks

EXPLAIN = ('a witness function per operation of every SIMD class and a function with its lane-wise scalar definition are generated from the declarations of the class, compiled and evaluated as ordered value graphs on algebraically generic lanes (masks, shifts and comparisons with equal and zero lanes included); '
           'all memory written must agree lane by lane. Intrinsics are the shuffles, selects and arithmetic of their IR.')
RULES = {
    'lane': 'the vector operation writes what the scalar operation writes for every lane, and nothing else',
    'access': 'loads, stores and transposed accesses move every element to its place',
    'mask': 'masks, merges, any and all follow the lanes of the mask',
}


def rule(n):
    return 'access' if n[0] in 'tx' or n.startswith(('v_trans', 'v_swap')) else 'mask' if n[0] == 'm' or n[:5] in ('v_any', 'v_all') else 'lane'


def check(ctx):
    seeds = tuple(range(1, 9)) if ctx.thorough else (1, 2, 3)
    T = [(c, seeds) for c in vecan.CLASSES]
    unc = {}

    def one(t):
        (nm, W, h, fl), seeds = t
        o, un, tests, mod = vecan.run(nm, W, h, fl, seeds)
        res = []
        for n, s, ok, x in o:
            inst = f'{nm}/{n}/{s}'
            where = f'src/util/{h}:{line(h, n, W)}'
            if ok is None:
                res.append((None, inst, None, where, x))
            else:
                res.append((rule(n), inst, ok, where, f'{n} of {nm} differs from its scalar definition: {x}'))
        for n in un:
            res.append((None, f'{nm}/{n}', None, '', 'no scalar definition known'))
        return res
    for c in vecan.CLASSES:
        ctx.saw(c[0])
    run_tasks(ctx, T, one, lambda t: t[0][0])
    for r, n in (('lane', 1500), ('access', 250), ('mask', 200)):
        ctx.floor(r, n)


def line(h, n, W):
    import re, os
    t = open(os.path.join(proj.REPO, 'src/util', h)).read().split('\n')
    k = re.sub(r'^[a-z]+_', '', n)
    k = {'x_load': f'load_{W}x1', 'x_copy': f'copy_{W}x1', 'x_swap': f'swap_{W}x1', 'x_clear': f'clear_{W}x1', 'x_stream': f'stream_{W}x1', 'v_any_m': 'any'}.get(n, re.sub(r'_?[\dmAN1i]$', '', k) if n[0] == 'v' else k)
    for i, l in enumerate(t):
        if re.search(rf'inline .*\b{k} *\(', l) and 'friend' not in l:
            return i + 1
    return 1
