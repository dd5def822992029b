import proj, uan, stepan

EXPLAIN = ('every function of the library (and of a deck that instantiates the helper macros) is reduced to SSA form without any other simplification; '
           'a use of an undefined value is a use of a local variable no definition reaches on any path. Argument blocks built on the stack are matched, field by field, with what the callee or the dispatched pipelines read from them; '
           'stack arrays read where nothing writes, and formatted messages whose arguments do not match the format, are reported too.')
RULES = {
    'local': 'no computation, store, call or branch uses a local variable that has not been assigned on any path to it',
    'block': 'every field a callee reads from an argument block has been set by the caller',
    'object': 'every member (arrays apart) of a structure allocated by a constructor is assigned or cleared by it',
    'format': 'the arguments of a formatted message have the number and the types of its conversions',
}
PRINTF = {'log_printf': 0, 'printf': 0, 'fprintf': 1, 'sprintf': 1, 'snprintf': 2, 'fileio_print': None}


def is_array(st, name):
    m = sorted(st.members, key=lambda x: x[1])
    k = [x[0] for x in m].index(name)
    end = m[k + 1][1] if k + 1 < len(m) else st.size
    return end - m[k][1] > 8


NORMU = 'always-inline,function(mem2reg),globaldce'


def check(ctx):
    cfgs = ['ref', 'v4sse', 'v8avx2', 'v8omp', 'v16portable']
    nb = ob = 0
    for c in cfgs:
        mod = ctx.mod(c, norm=NORMU)
        W = uan.Whole(mod)
        for name in list(mod._raw):
            f = mod.func(name)
            if f is None or not f.blocks:
                continue
            ctx.saw(f)
            d = stepan.short(name)
            seen = set()
            for i in uan.undef_uses(f):
                w = uan.where(i)
                if w not in seen:
                    seen.add(w)
                    ctx.bad('local', f'{c}/{d}/{i["op"]}', w, f'{d}: {i["op"]} uses a value that was never assigned')
            if not seen:
                ctx.ok('local', f'{c}/{d}', f.file)
            bad, n = uan.blocks(W, name)
            nb += n
            seen = set()
            for al, i, off, nm, li in bad:
                k = (al, off, nm)
                if k in seen:
                    continue
                seen.add(k)
                ctx.bad('block', f'{c}/{d}/{off}/{stepan.short(nm)}', uan.where(i), f'{stepan.short(nm)} reads byte {off} of a block of {d} ({uan.where(li)}) that {d} never sets')
            if n and not bad:
                ctx.ok('block', f'{c}/{d}/{n} reads', f.file)
            for ty, size, i, miss in uan.objects(W, name):
                ob += 1
                miss = [x for x in miss if not is_array(mod.structs[ty], x)]
                ctx.expect(not miss, 'object', f'{c}/{d}/{ty}', uan.where(i), f'{d} allocates a {ty} and never sets its {", ".join(miss)}')
            F = W.fn(name)
            for b in f.blocks:
                for i in b:
                    if i['op'] != 'call' or i['callee'][0] != 'fn':
                        continue
                    cn = stepan.short(i['callee'][1])
                    k = PRINTF.get(cn)
                    if k is None or len(i['o']) <= k:
                        continue
                    o = i['o'][k]
                    g = mod.globals.get(o[1]) if o and o[0] == 'g' else None
                    if not g or not g.get('init') or g['init'][0] != 'data' or g['init'][1] != 'str':
                        continue
                    s = g['init'][2].split('\0')[0]
                    ts = [uan.otype(F, x) for x in i['o'][k + 1:]]
                    ts = [f.args[i['o'][k + 1 + j][1]][1] if t == 'arg' and False else t for j, t in enumerate(ts)]
                    if 'arg' in ts or None in ts:
                        aa = []
                        for j, t in enumerate(ts):
                            if t == 'arg':
                                x = f.args[i['o'][k + 1 + j][1]]
                                t = x.get('t') if isinstance(x, dict) else x[1] if isinstance(x, (list, tuple)) else x
                            aa.append(t)
                        ts = aa
                    if None in ts:
                        continue
                    m = uan.fmt_issue(s, ts)
                    ctx.expect(m is None, 'format', f'{c}/{d}/{uan.where(i)}', uan.where(i), f'{d}: message {s.strip()[:50]!r}: {m}')
    ctx.note(f'{nb} block fields read')
    ctx.floor('local', 800)
    ctx.floor('block', 60)
    ctx.floor('format', 300)
    ctx.floor('object', 80)
