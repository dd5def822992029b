import movean
EXPLAIN = 'The cell-crossing routine move_p (scalar and vector variant) is turned into a value graph whose memory effects stay in program order. For families of straight tracks - all directions, tracks along an axis, several crossings, reflections, faces this domain cannot handle - the rational expressions it leaves behind (current quadrants of every cell touched, position, momentum, voxel, remaining displacement, mover index, result) are compared, as exact rational numbers, with an independent statement of the track splitting and of the current deposit.'
RULES = {'track': 'effects of move_p on accumulator, particle and mover == specification of the split track'}


def check(ctx):
    seen = {}
    for c in ['ref', 'v4sse', 'v8avx2', 'v8omp', 'v16portable']:
        m = ctx.mod(c, norm=__import__('proj').NORMV)
        R = lambda cat, rule, inst, ok, where, msg: ctx.expect(ok, cat, f'{rule}/{inst}', where, msg)
        try:
            s = movean.check(m, c, R, 120 if ctx.tier == 'quick' else 600)
        except movean.Broken as e:
            ctx.undecided(f'move_p/{c}', str(e))
            continue
        ctx.saw('move_p')
        ctx.note(f'move_p/{c}: {s}')
    ctx.floor('track', 25)
