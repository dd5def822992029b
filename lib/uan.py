"""Definedness of values: uses of local variables no definition reaches, argument blocks handed to pipelines
with fields that are read but never set, local arrays read at places nothing writes, objects allocated but
not set up, and log messages whose arguments do not match their format."""
import re

PASS = ('freeze', 'insertelement', 'insertvalue', 'shufflevector')
THRU = ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'freeze')


def where(i):
    l = i.get('l')
    return f'{l[0][0]}:{l[0][1]}' if l else '?'


class Fn:
    """pointer roots of one function: id -> (root, offset or None)"""

    def __init__(self, f):
        self.f = f
        self.ins = {i['id']: i for b in f.blocks for i in b}
        self.memo = {}

    def root(self, o, depth=0):
        if not o:
            return None
        if o[0] == 'a':
            return ('arg', o[1]), 0
        if o[0] == 'gepc' and o[1][0] == 'g':
            return ('glob', o[1][1]), o[2]
        if o[0] == 'g':
            return ('glob', o[1]), 0
        if o[0] != 'i':
            return None
        k = o[1]
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None
        i = self.ins.get(k)
        if i is None or depth > 60:
            return None
        op, r = i['op'], None
        if op == 'alloca':
            r = (('alloca', k), 0)
        elif op == 'getelementptr':
            b = self.root(i['o'][0], depth + 1)
            if b:
                r = (b[0], None if i['var'] or b[1] is None else b[1] + i['off'])
        elif op in THRU:
            r = self.root(i['o'][0], depth + 1)
        elif op in ('add', 'and', 'sub', 'or') and i['t'] == 'i64':
            # alignment arithmetic
            b = [self.root(x, depth + 1) for x in i['o']]
            b = [x for x in b if x and x[0][0] in ('alloca', 'arg')]
            if len(b) == 1:
                r = (b[0][0], b[0][1] if op == 'and' or b[0][1] == 0 else None)
        elif op in ('phi', 'select'):
            xs = [x[1] for x in i['o']] if op == 'phi' else i['o'][1:]
            bs = [self.root(x, depth + 1) for x in xs]
            bs = [b for b in bs if b]
            if bs and all(b[0] == bs[0][0] for b in bs):
                r = (bs[0][0], bs[0][1] if all(b[1] == bs[0][1] for b in bs) and len(bs) == len(xs) else None)
        elif op == 'load':
            b = self.root(i['o'][0], depth + 1)
            if b and b[0][0] == 'alloca' and b[1] == 0 and i['t'] == 'ptr':
                r = (('cell', b[0][1]), 0)
        self.memo[k] = r
        return r


def undef_uses(f):
    for b in f.blocks:
        for i in b:
            if i['op'] in PASS:
                continue
            for o in ([x[1] for x in i['o']] if i['op'] == 'phi' else i['o']):
                if o and o[0] in ('undef', 'poison') and i['op'] != 'phi':
                    if i['op'] == 'call' and 'llvm.' in str(i.get('callee')):
                        continue
                    yield i
                    break


class Whole:
    def __init__(self, mod):
        self.mod = mod
        self.fns = {}
        self.rd = {}

    def fn(self, name):
        if name not in self.fns:
            f = self.mod.func(name)
            self.fns[name] = Fn(f) if f is not None and f.blocks else None
        return self.fns[name]

    def reads(self, name, arg, depth=0):
        """constant offsets the function reads relative to its argument: {offset: (size, instruction)}"""
        key = (name, arg)
        if key in self.rd:
            return self.rd[key]
        self.rd[key] = {}
        F = self.fn(name)
        if F is None or depth > 8:
            return {}
        out, wr = {}, set()
        for b in F.f.blocks:
            for i in b:
                if i['op'] == 'load':
                    r = F.root(i['o'][0])
                    if r and r[0] == ('arg', arg) and r[1] is not None:
                        out.setdefault(r[1], (i['sz'], i, F.f))
                elif i['op'] == 'store':
                    r = F.root(i['o'][1])
                    if r and r[0] == ('arg', arg) and r[1] is not None:
                        wr.add(r[1])
                elif i['op'] == 'call':
                    cs = i['callee']
                    if cs[0] == 'fn':
                        for k, o in enumerate(i['o']):
                            r = F.root(o)
                            if r and r[0] == ('arg', arg) and r[1] is not None:
                                for off, v in self.reads(cs[1], k, depth + 1).items():
                                    out.setdefault(r[1] + off, v)
        # what the function itself sets need not be set by the caller
        self.rd[key] = {o: v for o, v in out.items() if o not in wr}
        return self.rd[key]


def blocks(W, name):
    """(alloca, call, offset, reading function, where) read but never set; and the number of fields checked"""
    F = W.fn(name)
    if F is None:
        return [], 0
    al = [i for b in F.f.blocks for i in b if i['op'] == 'alloca' and i.get('asz', 0) >= 8]
    if not al:
        return [], 0
    sets, opaque, calls, loads = {}, set(), [], []
    for b in F.f.blocks:
        for i in b:
            op = i['op']
            if op == 'store':
                r = F.root(i['o'][1])
                if r and r[0][0] == 'alloca':
                    if r[1] is None:
                        opaque.add(r[0])
                    else:
                        sets.setdefault(r[0], []).append((r[1], r[1] + i.get('sz', 8)))
                r = F.root(i['o'][0])
                if r and r[0][0] == 'alloca':
                    opaque.add(r[0])        # its address is kept elsewhere
            elif op == 'load':
                r = F.root(i['o'][0])
                if r and r[0][0] == 'alloca' and r[1] is not None:
                    loads.append((r[0], r[1], i))
                elif r and r[0][0] == 'alloca':
                    loads.append((r[0], None, i))
            elif op == 'call':
                cs = i['callee']
                nm = cs[1] if cs[0] == 'fn' else None
                if nm and nm.startswith(('llvm.lifetime', 'llvm.dbg')):
                    continue
                rs = [F.root(o) for o in i['o']]
                for k, r in enumerate(rs):
                    if not r or r[0][0] != 'alloca':
                        continue
                    if nm and nm.startswith(('llvm.memcpy', 'llvm.memset', 'llvm.memmove')):
                        if k == 0:
                            n = i['o'][2]
                            if r[1] is None or n[0] != 'c':
                                opaque.add(r[0])
                            else:
                                sets.setdefault(r[0], []).append((r[1], r[1] + n[1]))
                        continue
                    fns = [o[1] for o in i['o'] if o and o[0] == 'fn']
                    if nm and W.fn(nm) is not None:
                        calls.append((r, i, [(nm, k)]))
                    elif cs[0] != 'fn' and fns and r[1] is not None:
                        calls.append((r, i, [(x, 0) for x in fns]))
                    else:
                        opaque.add(r[0])    # somebody else may set it
            elif op not in ('getelementptr', 'phi', 'select', 'icmp', 'br', 'ret') + THRU:
                pass
    bad, n = [], 0
    # a call of a function that may write the block makes the rest undecided
    writers = set()
    for r, i, ts in calls:
        for nm, k in ts:
            if may_write(W, nm, k):
                writers.add((r[0], i['id']))
    for r, i, ts in calls:
        if r[1] is None or r[0] in opaque:
            continue
        if any(x[0] == r[0] and x[1] < i['id'] for x in writers) or not sets.get(r[0]):
            if r[0] in {x[0] for x in writers}:
                continue
        for nm, k in ts:
            for off, (sz, li, lf) in W.reads(nm, k).items():
                n += 1
                o = r[1] + off
                if not any(a <= o and o + sz <= b or a < o + sz and o < b for a, b in sets.get(r[0], [])):
                    bad.append((r[0][1], i, o, nm, li))
    for rt, off, i in loads:
        if rt in opaque or rt in {x[0] for x in writers}:
            continue
        n += 1
        s = sets.get(rt, [])
        if off is None and not s or off is not None and not any(a < off + i['sz'] and off < b for a, b in s):
            bad.append((rt[1], i, off, name, i))
    return bad, n


def may_write(W, name, arg, depth=0, seen=None):
    seen = seen or set()
    if (name, arg) in seen:
        return False
    seen.add((name, arg))
    F = W.fn(name)
    if F is None:
        return not name.startswith('llvm.')
    if depth > 8:
        return True
    for b in F.f.blocks:
        for i in b:
            if i['op'] == 'store':
                r = F.root(i['o'][1])
                if r and r[0] == ('arg', arg):
                    return True
                r = F.root(i['o'][0])
                if r and r[0] == ('arg', arg):
                    return True
            elif i['op'] == 'call':
                for k, o in enumerate(i['o']):
                    r = F.root(o)
                    if r and r[0] == ('arg', arg):
                        cs = i['callee']
                        if cs[0] != 'fn' or may_write(W, cs[1], k, depth + 1, seen):
                            return True
    return False


# ----------------------------------------------------------------------------------------------
CONV = re.compile(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t|L)?([diouxXeEfFgGaAcspn%])')


def fmt_issue(fmt, types):
    """mismatch of a printf format with the promoted argument types"""
    want = []
    pos = 0
    while True:
        k = fmt.find('%', pos)
        if k < 0:
            break
        mt = CONV.match(fmt, k)
        if not mt:
            return f'conversion not understood at {fmt[k:k + 6]!r}'
        pos = mt.end()
        fl, w, p, ln, c = mt.groups()
        if c == '%':
            continue
        for x in (w, p):
            if x == '*':
                want.append(('i32',))
        if c in 'diouxX':
            want.append({'l': ('i64',), 'll': ('i64',), 'z': ('i64',), 'j': ('i64',), 't': ('i64',)}.get(ln, ('i32',)))
        elif c == 'c':
            want.append(('i32',))
        elif c in 'eEfFgGaA':
            want.append(('double',) if ln != 'L' else ('x86_fp80',))
        else:
            want.append(('ptr',))
    if len(want) != len(types):
        return f'{len(want)} conversions but {len(types)} arguments'
    for j, (w, t) in enumerate(zip(want, types)):
        if t not in w:
            return f'argument {j + 1} is {t} where the format expects {w[0]}'
    return None


def otype(F, o):
    if o[0] in ('c',):
        return f'i{o[2]}'
    if o[0] == 'f':
        return o[2] if len(o) > 2 else 'double'
    if o[0] in ('g', 'gepc', 'null', 'fn'):
        return 'ptr'
    if o[0] == 'i':
        i = F.ins.get(o[1])
        return i['t'] if i else None
    if o[0] == 'a':
        return 'arg'
    return None


def writes(W, name, arg, depth=0):
    """ranges the function certainly may set relative to its argument; None when unknown"""
    F = W.fn(name)
    if F is None or depth > 6:
        return None
    out = []
    for b in F.f.blocks:
        for i in b:
            if i['op'] == 'store':
                r = F.root(i['o'][1])
                if r and r[0] == ('arg', arg):
                    out.append((r[1], r[1] + i.get('sz', 8)) if r[1] is not None else None)
            elif i['op'] == 'call':
                for k, o in enumerate(i['o']):
                    r = F.root(o)
                    if r and r[0] == ('arg', arg) and r[1] is not None:
                        cs = i['callee']
                        if cs[0] == 'fn' and cs[1].startswith(('llvm.memset', 'llvm.memcpy')):
                            if k == 0:
                                out.append((r[1], r[1] + i['o'][2][1]) if i['o'][2][0] == 'c' else None)
                            continue
                        x = writes(W, cs[1], k, depth + 1) if cs[0] == 'fn' else None
                        out += [None] if x is None else [None if y is None else (y[0] + r[1], y[1] + r[1]) for y in x]
    return out


def objects(W, name):
    """structures allocated here: [(struct, size, call, [unset members])]"""
    F = W.fn(name)
    if F is None:
        return []
    out = []
    st = W.mod.structs
    for b in F.f.blocks:
        for i in b:
            if i['op'] != 'call' or i['callee'][0] != 'fn' or i['callee'][1] not in ('util_malloc', 'util_malloc_aligned') or len(i['o']) < 3 or i['o'][2][0] != 'c':
                continue
            r = F.root(i['o'][1])
            if not r or r[0][0] != 'alloca' or r[1] != 0:
                continue
            size, cell = i['o'][2][1], ('cell', r[0][1])
            ty, sets, unk = None, [], False
            for b2 in F.f.blocks:
                for j in b2:
                    op = j['op']
                    if op == 'getelementptr':
                        q = F.root(j['o'][0])
                        if q and q == (cell, 0):
                            s = j.get('sty', '').replace('%struct.', '').replace('%class.', '')
                            if s in st and st[s].size == size:
                                ty = s
                    elif op == 'store':
                        q = F.root(j['o'][1])
                        if q and q[0] == cell:
                            if q[1] is None:
                                unk = True
                            else:
                                sets.append((q[1], q[1] + j.get('sz', 8)))
                    elif op == 'call' and j is not i:
                        for k, o in enumerate(j['o']):
                            q = F.root(o)
                            if not q or q[0] != cell:
                                continue
                            cs = j['callee']
                            nm = cs[1] if cs[0] == 'fn' else None
                            if nm and nm.startswith(('llvm.memset', 'llvm.memcpy', 'memset')):
                                if k == 0:
                                    n = j['o'][2]
                                    if n[0] == 'c' and q[1] is not None:
                                        sets.append((q[1], q[1] + n[1]))
                                    else:
                                        unk = True
                            else:
                                x = writes(W, nm, k) if nm and q[1] is not None else None
                                if x is None and nm and nm.startswith('util_'):
                                    x = [(q[1], q[1] + 8)]
                                if x is None and nm and F_none(W, nm):
                                    x = []
                                if x is None or None in x:
                                    unk = True
                                else:
                                    sets += [(a + q[1], c + q[1]) for a, c in x]
            if ty is None:
                continue
            miss = [m[0] for m in st[ty].members if not any(a <= m[1] < c for a, c in sets)]
            out.append((ty, size, i, [] if unk else miss))
    return out


def F_none(W, nm):
    return W.fn(nm) is None and not nm.startswith(('memcpy', 'memset', 'memmove'))
