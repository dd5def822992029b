"""width of the integer / float operations that divide the work: a share of a count is computed in
double precision (exact up to 2^53) and no count or index passes through an 8- or 16-bit integer"""
FLOATOPS = ('fmul', 'fadd', 'fsub', 'fdiv', 'fpext', 'fptrunc', 'select', 'fneg', 'phi')


def blocks(f):
    return list(f.blocks.values()) if isinstance(f.blocks, dict) else f.blocks


def single(f):
    """(fptosi instr, float instr) where a rounded share of an integer count went through float"""
    ins = {i['id']: i for b in blocks(f) for i in b if 'id' in i}
    n = 0
    for b in blocks(f):
        for i in b:
            if i['op'] not in ('fptosi', 'fptoui'):
                continue
            seen, st, src, fl = set(), [i], False, None
            while st:
                x = st.pop()
                for o in x['o']:
                    o = o[1] if x['op'] == 'phi' else o
                    if not o or o[0] != 'i' or o[1] not in ins or o[1] in seen:
                        continue
                    y = ins[o[1]]
                    seen.add(o[1])
                    if y['op'] in FLOATOPS:
                        st.append(y)
                        fl = y if y['t'] == 'float' else fl
                    elif y['op'] in ('sitofp', 'uitofp'):
                        src = True
                        fl = y if y['t'] == 'float' else fl
            n += src
            if src and fl:
                yield i, 'a share of a count is computed in single precision (not exact beyond 2^24)'
            elif src and i['t'] in ('i8', 'i16'):
                yield i, f'a share of a count is narrowed to {i["t"]}'


def narrow(f):
    ins = {i['id']: i for b in blocks(f) for i in b if 'id' in i}
    use = {}
    for b in blocks(f):
        for i in b:
            for o in i.get('o', ()):
                o = o[1] if i['op'] == 'phi' else o
                if o and o[0] == 'i':
                    use.setdefault(o[1], []).append(i)
    for i in list(ins.values()):
        if i['op'] == 'trunc' and i['t'] in ('i8', 'i16') and i.get('ot') in ('i32', 'i64'):
            if any(u['op'] in ('sext', 'zext', 'sitofp', 'uitofp') or u['op'] in ('phi', 'add', 'icmp') for u in use.get(i['id'], ())):
                yield i, f'an integer is narrowed to {i["t"]} and used as a number again'


def shares(ctx, mods, rule='exact-shares'):
    """every pipeline function (and the host function that sizes its work)"""
    for c, m in mods:
        for n in sorted(m._raw):
            f = m.func(n)
            if f is None or 'pipeline' not in f.file:
                continue
            bad = list(single(f)) + list(narrow(f))
            ctx.expect(not bad, rule, f'{f.dname}/{c}', f.loc(bad[0][0]) if bad else f'{f.file}:{f.line}', bad[0][1] if bad else '')


def fraction(f):
    """a quotient or an integer turned into a number in single precision, not just stored as such"""
    for b in blocks(f):
        for i in b:
            if i['op'] in ('sitofp', 'uitofp', 'fdiv') and i['t'] == 'float':
                yield i, 'computed in single precision: the bounds of neighbouring domains are equal only when both come from one double precision rule'
