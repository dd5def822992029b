"""Dump files: the dump functions are evaluated as ordered value graphs on a simulation built by the
repository's constructors, with an abstract file system (names, modes, the exact sequence of bytes and
of printed text); the files must hold what the format prescribes, and the simulation must be unchanged."""
import re
import ckan, stepan, vg
from fractions import Fraction as Q
from vg import P, Graph
from kern import sgn
from absev import Aborted
from proj import Broken

FIELD = [('Electric Field', 'VECTOR', 3, 'FLOATING_POINT', 4), ('Electric Field Divergence Error', 'SCALAR', 1, 'FLOATING_POINT', 4),
         ('Magnetic Field', 'VECTOR', 3, 'FLOATING_POINT', 4), ('Magnetic Field Divergence Error', 'SCALAR', 1, 'FLOATING_POINT', 4),
         ('TCA Field', 'VECTOR', 3, 'FLOATING_POINT', 4), ('Bound Charge Density', 'SCALAR', 1, 'FLOATING_POINT', 4),
         ('Free Current Field', 'VECTOR', 3, 'FLOATING_POINT', 4), ('Charge Density', 'SCALAR', 1, 'FLOATING_POINT', 4),
         ('Edge Material', 'VECTOR', 3, 'INTEGER', 2), ('Node Material', 'SCALAR', 1, 'INTEGER', 2),
         ('Face Material', 'VECTOR', 3, 'INTEGER', 2), ('Cell Material', 'SCALAR', 1, 'INTEGER', 2)]
HYDRO = [('Current Density', 'VECTOR', 3, 'FLOATING_POINT', 4), ('Charge Density', 'SCALAR', 1, 'FLOATING_POINT', 4),
         ('Momentum Density', 'VECTOR', 3, 'FLOATING_POINT', 4), ('Kinetic Energy Density', 'SCALAR', 1, 'FLOATING_POINT', 4),
         ('Stress Tensor', 'TENSOR', 6, 'FLOATING_POINT', 4)]
FIX = [0, 3, 4, 7, 8, 11, 12, 15, 16, 19, 20, 23]
HIX = [0, 3, 4, 7, 8]
M32 = 1 << 32


FVARS = ('ex', 'ey', 'ez', 'div_e_err', 'cbx', 'cby', 'cbz', 'div_b_err', 'tcax', 'tcay', 'tcaz', 'rhob', 'jfx', 'jfy', 'jfz', 'rhof', 'ematx', 'ematy', 'ematz', 'nmat', 'fmatx', 'fmaty', 'fmatz', 'cmat')
HVARS = ('jx', 'jy', 'jz', 'rho', 'px', 'py', 'pz', 'ke', 'txx', 'tyy', 'tzz', 'tyz', 'tzx', 'txy')


def lay(s):
    return sorted((x[1], x[3]) for x in s.members if x[3] in (2, 4))


class File:
    def __init__(self, name, mode):
        self.name, self.mode, self.open = name, mode, True
        self.n = 0
        self.b = []          # (offset, value) of the cells written
        self.t = []          # printed text: strings and (conversion, value)

    def text(self, toks):
        for x in toks:
            if isinstance(x, str) and self.t and isinstance(self.t[-1], str):
                self.t[-1] += x
            elif x != '':
                self.t.append(x)


class Dump(ckan.Scene):
    def __init__(self, g, mod, cfg, shape, fs=None):
        ckan.Scene.__init__(self, g, mod, cfg, dict(dict(bcs=False, coll=False, emit=False, bufs=False), **shape))
        m, S = self.m, mod.structs
        a = (self.grid + S['grid'].off('step')) % P
        m.mem[a], m.fty[a] = shape.get('step', 41), False
        self.base = m.stub
        self.ab.stub = self.stub
        for k, v in zip(('px', 'py', 'pz'), (3, 5, 2)):
            a = (self.vp + S['vpic_simulation'].off(k)) % P
            m.mem[a], m.fty[a] = v, False
        for k, nm in enumerate(('dt', 'cvac', 'eps0', 'dx', 'dy', 'dz', 'x0', 'y0', 'z0', 'x1', 'y1', 'z1')):
            m.setf(self.grid + S['grid'].off(nm), Q(2 * k + 3, 8))
        self.matcells(self.L(self.fa, 'field_array', 'f'))
        self.fl, self.cur, self.dirs, self.calls, self.scratch = [], {}, [], [], ()
        self.nh = 0
        self.failopen = self.failclose = False

    def matcells(self, a):
        """generic values in every member of the fields (material identifiers included)"""
        m, s = self.m, self.S['field']
        self.lay = lay(s)
        for v in range(self.nv):
            for o, k in self.lay:
                x = (a + v * s.size + o) % P
                m.mem[x], m.fty[x] = m.rnd.h(934, a, v, o), k == 4

    def fmt(self, f, args):
        """printf: text with values as tokens"""
        out, i, args = [], 0, list(args)
        for x in re.finditer(r'%([-+ #0]*)(\d*)(?:\.(\d+))?(hh|h|ll|l|z|j|t|)([a-zA-Z%])|[^%]+|%', f):
            t = x[0]
            if not t.startswith('%') or t == '%':
                out.append(t)
                continue
            c = x[5]
            if c == '%':
                out.append('%')
                continue
            if not args:
                raise Broken('a printf conversion without an argument')
            v = args.pop(0)
            if c in 'di':
                v = sgn(v)
                if x[4] in ('', 'h', 'hh'):
                    v = (v + (1 << 31)) % M32 - (1 << 31)
                out.append('%' + x[1] + x[2] + 'd' if False else (x[1] + x[2] and ('%' + x[1] + x[2] + 'd') % v or str(v)))
            elif c == 'u':
                v = sgn(v) % (1 << 64 if x[4] in ('l', 'll', 'z', 'j') else M32)
                out.append(str(v))
            elif c == 's':
                out.append(self.m.cstr(v))
            elif c in 'eEfFgG':
                out.append((t[1:], v))
            else:
                raise Broken(f'conversion {t}')
        return out

    def line(self, f, args):
        o = self.fmt(f, args)
        if any(not isinstance(x, str) for x in o):
            raise Broken('a file name with a real number')
        return ''.join(o)

    def stub(self, ab, pit, callee, args, e):
        nm = callee if isinstance(callee, str) else ''
        m = self.m
        s = stepan.short(nm) if nm else ''
        if nm in ('sprintf', 'snprintf', '__sprintf_chk', '__snprintf_chk'):
            k = {'sprintf': 1, 'snprintf': 2, '__sprintf_chk': 3, '__snprintf_chk': 4}[nm]
            t = self.line(m.cstr(args[k]), args[k + 1:])
            if nm in ('snprintf', '__snprintf_chk'):
                n = sgn(args[1])
                m.setstr(args[0], t[:max(0, n - 1)])
                return len(t)
            m.setstr(args[0], t)
            return len(t)
        if nm == 'strcat':
            m.setstr(args[0], m.cstr(args[0]) + m.cstr(args[1]))
            return args[0]
        if nm in ('fopen', 'fopen64'):
            f = File(m.cstr(args[0]), m.cstr(args[1]))
            if self.failopen:
                return 0
            self.nh += 1
            h = ((1 << 56) + 4096 * self.nh) % P
            self.cur[h] = f
            self.fl.append(f)
            return h
        if nm == 'fclose':
            f = self.cur.get(args[0])
            if f is None or not f.open:
                m.issues.append('a file that is not open is closed')
            else:
                f.open = False
            return (-1) % P if self.failclose else 0
        if nm == 'fwrite':
            f = self.cur.get(args[3])
            if f is None or not f.open:
                raise Broken('a write to an unknown file')
            n = sgn(args[1]) * sgn(args[2])
            if not 0 <= n < 1 << 28:
                m.issues.append(f'a write of {n} bytes')
                return args[2]
            b = m.block(args[0])
            if b is not None and sgn(args[0]) - b + n > m.heap.blocks[b][0]:
                m.issues.append(f'{n} bytes are written from a block with {m.heap.blocks[b][0] - (sgn(args[0]) - b)} bytes left')
            a, mem = args[0], m.mem
            f.b += [(f.n + o, mem[(a + o) % P]) for o in range(n) if (a + o) % P in mem]
            f.n += n
            return args[2]
        if 'FileIO_T' in nm and '5print' in nm:
            h = m.load(args[0] + self.hoff)
            f = self.cur.get(h)
            if f is None or not f.open:
                raise Broken('a print to an unknown file')
            f.text(self.fmt(m.cstr(args[1]), args[2:]))
            return 0
        if nm == 'fprintf':
            f = self.cur.get(args[0])
            if f is not None:
                f.text(self.fmt(m.cstr(args[1]), args[2:]))
                return 0
            return 0
        if nm in ('fputs', 'fputc', 'putc'):
            f = self.cur.get(args[1])
            if f is not None:
                f.text([m.cstr(args[0]) if nm == 'fputs' else chr(sgn(args[0]) & 255)])
                return 0
        if nm == 'mkdir' or s == 'makeDirectory':
            self.dirs.append(m.cstr(args[0]))
            return 0
        if nm == 'remainder' or nm == 'fmod':
            x, y = sgn(args[0]), sgn(args[1])
            if y == 0 or abs(x) > 1 << 40 or abs(y) > 1 << 40:
                raise Broken('remainder of unusual numbers')
            r = x - y * round(Q(x, y)) if nm == 'remainder' else abs(x) % abs(y) * (1 if x >= 0 else -1)
            return m.real(Q(r))
        if nm in ('_Znam', '_Znwm'):
            return m.heap.alloc(sgn(args[0]), 'new')
        if nm.startswith(('_ZdaPv', '_ZdlPv')):
            return 0
        t = s[7:] if s.startswith('vacuum_') else s
        if t == 'energy_f':
            self.calls.append(('energy_f', args[1]))
            for k in range(6):
                ab.put(pit, args[0] + 8 * k, self.en(k), 'double', e)
            return 0
        if t == 'energy_p':
            self.calls.append(('energy_p', args[0], args[1]))
            return self.en(args[0])
        if t == 'center_p':
            sp = args[0]
            p, n = m.load(sp + self.S['species'].off('p')), sgn(m.load(sp + self.S['species'].off('np')))
            mx = sgn(m.load(sp + self.S['species'].off('max_np')))
            if args[1] != self.ia % P:
                m.issues.append('particles are centred with other fields than the interpolator of the simulation')
            b = m.block(p)
            if n > mx or b is None or sgn(p) - b + 32 * n > m.heap.blocks[b][0]:
                m.issues.append(f'{n} particles are centred in a buffer for fewer')
                return 0
            for i in range(n):
                for k in ('ux', 'uy', 'uz'):
                    a = (p + 32 * i + self.S['particle'].off(k)) % P
                    m.mem[a] = self.cen(sp, m.mem.get(a, 0))
            return 0
        if t in ('clear_hydro_array', 'accumulate_hydro_p', 'synchronize_hydro_array'):
            self.calls.append((t,) + tuple(args))
            h = m.load(args[0] + self.S['hydro_array'].off('h'))
            if t == 'accumulate_hydro_p':
                for o in range(0, self.nv * self.S['hydro'].size, 4):
                    m.mem[(h + o) % P] = m.rnd.h(931, args[1], o)
            elif t.startswith('sync'):
                for o in range(0, self.nv * self.S['hydro'].size, 4):
                    m.mem[(h + o) % P] = m.rnd.h(932, m.mem[(h + o) % P])
            return 0
        return self.base(ab, pit, callee, args, e)

    @property
    def S(self):
        return self.mod.structs

    def en(self, k):
        return self.m.rnd.h(930, k)

    def cen(self, sp, v):
        return self.m.rnd.h(933, sp, v)

    @property
    def hoff(self):
        for n, s in self.S.items():
            if n.endswith('StandardIOPolicy'):
                return s.off('handle_')
        raise Broken('StandardIOPolicy has no layout')

    def hydroval(self, sp, o):
        return self.m.rnd.h(932, self.m.rnd.h(931, sp, o))

    def method(self, n):
        c = [k for k in self.mod._raw if k.startswith(f'_ZN15vpic_simulation{len(n)}{n}E')]
        if len(c) != 1:
            raise Broken(f'vpic_simulation::{n} not found')
        return self.mod.func(c[0])

    def run(self, f, *args):
        try:
            self.ab.call(f, [self.vp] + [a % P for a in args])
        except Aborted as e:
            ef = e.args[0]
            return f'error exit at {getattr(ef, "where", None) or getattr(ef, "loc", None)}'
        return ''

    # -- expected contents -----------------------------------------------
    def header(self, kind, spid, qm, step, n, s):
        L, m = self.L, self.m
        G = lambda k: L(self.grid, 'grid', k)
        R = m.real
        w = []
        for v, k in ((8, 1), (2, 1), (4, 1), (4, 1), (8, 1), (0xcafe, -2), (0xdeadbeef, -4)):
            w.append((abs(k), v))
        w += [(4, ('f', R(Q(1)))), (8, ('f', R(Q(1)))), (4, 0), (4, kind), (4, step)]
        w += [(4, x) for x in n]
        w += [(4, ('f', G('dt')))] + [(4, ('f', G(k) * x % P)) for k, x in zip(('dx', 'dy', 'dz'), s)]
        w += [(4, ('f', G(k))) for k in ('x0', 'y0', 'z0', 'cvac', 'eps0')] + [(4, ('f', 0))]
        w += [(4, self.sh['rank']), (4, self.sh['nworld']), (4, spid), (4, ('f', qm))]
        return w

    def ahead(self, size, dims):
        return [(4, size), (4, len(dims))] + [(4, d) for d in dims]


def flat(w):
    out, n = [], 0
    for k, v in w:
        out.append((n, k, v))
        n += k
    return out, n


def same(f, w, names):
    """compare the bytes of a file with the expected items"""
    exp, n = flat(w)
    got = f.b
    if f.t:
        return 'text in a binary file'
    for i, (o, k, v) in enumerate(exp):
        if i >= len(got):
            return f'ends after {f.n} of {n} bytes'
        go, gv = got[i]
        nx = got[i + 1][0] if i + 1 < len(got) else f.n
        if go != o or nx - go != k:
            return f'{names(i)}: {nx - go} bytes at offset {go} instead of {k} at {o}'
        if isinstance(v, tuple):
            if gv != v[1] % P:
                return f'{names(i)} has another value'
        elif (sgn(gv) - v) % (1 << 8 * k):
            return f'{names(i)} is {sgn(gv)} instead of {v}'
    if len(got) != len(exp) or f.n != n:
        return f'{f.n} bytes instead of {n}'
    return ''


HN = ['CHAR_BIT', 'the size of short', 'the size of int', 'the size of float', 'the size of double', 'the short marker', 'the int marker', 'the float marker', 'the double marker', 'the version', 'the type of dump', 'the step', 'nx', 'ny', 'nz', 'dt', 'dx', 'dy', 'dz', 'x0', 'y0', 'z0', 'cvac', 'eps0', 'damp', 'the rank', 'the number of ranks', 'the species', 'q/m', 'the element size', 'the number of dimensions']


def namer(nd, body):
    def f(i):
        if i < len(HN):
            return HN[i]
        if i < len(HN) + nd:
            return f'dimension {i - len(HN)}'
        return body(i - len(HN) - nd)
    return f


def snapshot(S):
    m = S.m
    return {b: True for b in m.heap.blocks}, dict(m.mem)


def changed(S, snap, skip=()):
    bl, mem = snap
    m = S.m
    vp = S.S['vpic_simulation']
    out = [x for k in ('nxout', 'nyout', 'nzout', 'dxout', 'dyout', 'dzout') for x in [(S.vp + vp.off(k)) % P]]
    for a, v in mem.items():
        if m.mem.get(a) != v and a not in out:
            b = m.block(a)
            if b in bl and b not in skip and b not in S.scratch and m.heap.blocks[b][2] != 'string':
                return f'the dump changes the simulation (a value {sgn(a) - b} bytes into a block of {m.heap.blocks[b][0]})'
    return ''


def params(S, name, bits, strides, fmt, base='out', fn='fields'):
    s = S.S['DumpParameters']
    m = S.m
    a = m.heap.alloc(s.size, 'string')

    def put(k, v):
        x = (a + s.off(k)) % P
        m.mem[x], m.fty[x] = v % P, False
    put('output_vars', bits - M32 if bits >= 1 << 31 else bits)
    for k, v in zip(('stride_x', 'stride_y', 'stride_z'), strides):
        put(k, v)
    put('format', fmt)
    for k, v in (('name', name), ('baseDir', base), ('baseFileName', fn)):
        m.setstr((a + s.off(k)) % P, v)
    return a


def offs(n, s):
    """source index of each stored element along one axis"""
    k = n // s
    return [0] + [1 + (i - 1) * s for i in range(1, k + 1)] + [n + 1]


def done(S, snap, err, want, skip=()):
    """common obligations: '' or a message; want: list of (name, mode)"""
    if err:
        return f'a valid dump is refused ({err})'
    if [f.name for f in S.fl] != [x[0] for x in want]:
        return f'writes {", ".join(f.name for f in S.fl) or "no file"} instead of {", ".join(x[0] for x in want) or "none"}'
    for f, (n, md) in zip(S.fl, want):
        if f.mode.replace('b', '').replace('+', '') != md:
            return f'{n} is opened with mode "{f.mode}"'
        if f.open:
            return f'{n} is left open'
    if S.m.issues:
        return S.m.issues[0]
    return changed(S, snap, skip)


def fieldlike(S, kind, call, vars_, st_, spid, qm, step, strides, fmt, val, skip=(), fname=None, dirs=()):
    """run one field / hydro dump and compare"""
    snap = snapshot(S)
    err = call()
    msg = done(S, snap, err, [(fname, 'w')], skip)
    if msg:
        return msg
    if list(S.dirs) != list(dirs):
        return f'makes the directories {S.dirs} instead of {list(dirs)}'
    d = S.sh['dims']
    n = [x // s for x, s in zip(d, strides)]
    w = S.header(kind, spid, qm, step, n, strides)
    dims = [x + 2 for x in n]
    w += S.ahead(st_.size, dims)
    o = [offs(x, s) for x, s in zip(d, strides)]
    lab = []

    def at(x, y, z):
        return x + (d[0] + 2) * (y + (d[1] + 2) * z)
    pts = [(x, y, z) for z in o[2] for y in o[1] for x in o[0]]
    size = st_.size
    if fmt == 0:
        for v in vars_:
            v, wd = [(x[1], x[3]) for x in st_.members if x[0] == v][0]
            for p in pts:
                w.append((wd, ('f', val(at(*p) * size + v))))
                lab.append((v, p))
    else:
        ly = lay(st_) if kind == 1 else [(4 * i, 4) for i in range(size // 4)]
        for p in pts:
            for v, wd in ly:
                w.append((wd, ('f', val(at(*p) * size + v))))
                lab.append((v, p))
    nm = {x[1]: x[0] for x in st_.members}
    return same(S.fl[0], w, namer(3, lambda i: f'{nm.get(lab[i][0], "padding")} at {lab[i][1]}'))


def binary(mod, cfg, R, what, shape, cases, g, warm=None):
    for case in cases:
        S = Dump(g, mod, cfg, shape)
        f = S.method(what)
        where = f'{f.file}:{f.line}'
        if warm is not None:
            b0 = set(S.m.heap.blocks)
            msg = globals()['do_' + what](S, f, warm)
            S.scratch = set(S.m.heap.blocks) - b0
            S.fl, S.cur, S.dirs, S.calls = [], {}, [], []
            S.m.issues.clear()
            a = (S.grid + S.S['grid'].off('step')) % P
            S.m.mem[a] = S.m.mem[a] + 1
        msg = globals()['do_' + what](S, f, case)
        R('content', f'{what}/{"-".join(str(x) for x in case)}/{shape_name(shape)}{"/again" if warm is not None else ""}/{cfg}', not msg, where, f'{what} {case}: {msg}' if msg else '')


def shape_name(s):
    return 'x'.join(map(str, s.get('dims', (2, 3, 1)))) + f'r{s.get("rank", 1)}'


def step_of(S):
    return sgn(S.L(S.grid, 'grid', 'step'))


def qm(S, sp):
    return S.L(sp, 'species', 'q') * pow(S.L(sp, 'species', 'm'), P - 2, P) % P


def do_dump_grid(S, f, case):
    snap = snapshot(S)
    m, L = S.m, S.L
    rk = S.sh['rank']
    G = lambda k: L(S.grid, 'grid', k)
    nw = S.sh['nworld']
    err = S.run(f, m.newstr('out/g'))
    msg = done(S, snap, err, [(f'out/g.{rk}', 'w')])
    if msg:
        return msg
    d = S.sh['dims']
    w = S.header(0, -1, 0, step_of(S), d, (1, 1, 1))
    w += S.ahead(4, (3, 3, 3))
    k0 = len(w)
    bc = S.grid + S.S['grid'].off('bc')
    w += [(4, ('f', m.load((bc + 4 * i) % P))) for i in range(27)]
    w += S.ahead(8, (nw + 1,))
    w += [(8, ('f', m.load((G('range') + 8 * i) % P))) for i in range(nw + 1)]
    dims = (6,) + tuple(x + 2 for x in d)
    n = 6 * S.nv
    w += S.ahead(8, dims)
    w += [(8, ('f', m.load((G('neighbor') + 8 * i) % P))) for i in range(n)]
    return same(S.fl[0], w, lambda i: HN[i] if i < len(HN) else f'word {i - k0} of the boundary, range and neighbour tables')


def do_dump_fields(S, f, case):
    tag, own = case
    m = S.m
    a = S.L(S.fa, 'field_array', 'f')
    b = 0
    size = S.S['field'].size
    if own:
        b = m.heap.alloc(S.nv * size, 'own')
        S.matcells(b)
    rk = S.sh['rank']
    src = b or a
    return fieldlike(S, 1, lambda: S.run(f, m.newstr('out/f'), tag, b), None, S.S['field'], -1, 0, step_of(S), (1, 1, 1), 1,
                     lambda o: m.load((src + o) % P), (), f'out/f.{step_of(S)}.{rk}' if tag else f'out/f.{rk}')


def hyd(S, own):
    m = S.m
    size = S.S['hydro'].size
    b = 0
    if own:
        b = m.heap.alloc(S.nv * size, 'own')
        S.fill(b, S.nv * size // 4, True)
    return b, size


def hcalls(S, k, own):
    want = [] if own else [('clear_hydro_array', S.ha % P), ('accumulate_hydro_p', S.ha % P, S.sps[k] % P, S.ia % P), ('synchronize_hydro_array', S.ha % P)]
    if S.calls != want:
        return 'the hydro moments are not cleared, accumulated and synchronised once, in this order, for the species' if not own else 'moments given by the caller are overwritten'
    return ''


def do_dump_hydro(S, f, case):
    k, tag, own = case
    m = S.m
    b, size = hyd(S, own)
    rk = S.sh['rank']
    sp = S.sps[k]
    hb = m.block(S.L(S.ha, 'hydro_array', 'h'))
    return fieldlike(S, 2, lambda: S.run(f, m.newstr(f'sp_{k}'), m.newstr('out/h'), tag, b), None, S.S['hydro'], sgn(S.L(sp, 'species', 'id')), qm(S, sp), step_of(S), (1, 1, 1), 1,
                     (lambda o: m.load((b + o) % P)) if own else (lambda o: S.hydroval(sp, o)), () if own else (hb,), f'out/h.{step_of(S)}.{rk}' if tag else f'out/h.{rk}') or hcalls(S, k, own)


def do_dump_particles(S, f, case):
    k, tag = case
    m = S.m
    rk = S.sh['rank']
    sp = S.sps[k]
    np = S.sh['np']
    p = S.L(sp, 'species', 'p')
    if 32 * np > m.heap.blocks[m.block(p)][0]:
        p = m.heap.alloc(32 * np + 320, 'p', 128)
        for nm, v in (('p', p), ('max_np', np + 10)):
            m.mem[(sp + S.S['species'].off(nm)) % P] = v
        S.fill(p, 8 * np, True)
    snap = snapshot(S)
    err = S.run(f, m.newstr(f'sp_{k}'), m.newstr('out/p'), tag)
    msg = done(S, snap, err, [(f'out/p.{step_of(S)}.{rk}' if tag else f'out/p.{rk}', 'w')])
    if msg:
        return msg
    w = S.header(3, sgn(S.L(sp, 'species', 'id')), qm(S, sp), step_of(S), S.sh['dims'], (1, 1, 1))
    w += S.ahead(32, (np,))
    st = S.S['particle']
    nm = {st.off(x) // 4: x for x in ('dx', 'dy', 'dz', 'i', 'ux', 'uy', 'uz', 'w')}
    cen = {st.off(x) // 4 for x in ('ux', 'uy', 'uz')}
    for i in range(np):
        for j in range(8):
            v = m.load((p + 32 * i + 4 * j) % P)
            w.append((4, ('f', S.cen(sp, v) if j in cen else v)))
    return same(S.fl[0], w, namer(1, lambda i: f'{nm[i % 8]} of particle {i // 8}'))


def do_field_dump(S, f, case):
    bits, strides, fmt, own, ust = case
    m = S.m
    size = S.S['field'].size
    src = S.L(S.fa, 'field_array', 'f')
    b = 0
    if own:
        b = src = m.heap.alloc(S.nv * size, 'own')
        S.matcells(b)
    a = params(S, 'f', bits, strides, fmt)
    rk = S.sh['rank']
    st = step_of(S) if ust < 0 else ust
    vs = [x for i, x in enumerate(FVARS) if bits >> i & 1]
    return fieldlike(S, 1, lambda: S.run(f, a, b, ust), vs, S.S['field'], -1, 0, st, strides, fmt, lambda o: m.load((src + o) % P), (), f'out/T.{st}/fields.{st}.{rk}', (f'out/T.{st}',))


def do_hydro_dump(S, f, case):
    k, bits, strides, fmt, own, ust = case
    m = S.m
    b, size = hyd(S, own)
    a = params(S, 'h', bits, strides, fmt, 'out', 'hyd')
    rk = S.sh['rank']
    sp = S.sps[k]
    hb = m.block(S.L(S.ha, 'hydro_array', 'h'))
    st = step_of(S) if ust < 0 else ust
    vs = [x for i, x in enumerate(HVARS) if bits >> i & 1]
    return fieldlike(S, 2, lambda: S.run(f, m.newstr(f'sp_{k}'), a, b, ust), vs, S.S['hydro'], sgn(S.L(sp, 'species', 'id')), qm(S, sp), st, strides, fmt,
                     (lambda o: m.load((b + o) % P)) if own else (lambda o: S.hydroval(sp, o)), () if own else (hb,), f'out/T.{st}/hyd.{st}.{rk}', (f'out/T.{st}',)) or hcalls(S, k, own)


# -- text ---------------------------------------------------------------------
def showtok(t):
    return repr(t) if isinstance(t, str) else f'a value printed with %{t[0]}'


def sametext(f, w, what):
    exp = File('', '')
    exp.text(w)
    if f.b:
        return 'binary data in a text file'
    for i, (x, y) in enumerate(zip(f.t, exp.t)):
        if isinstance(x, tuple) and isinstance(y, tuple):
            if y[1] != x[1]:
                return f'another value after {exp.t[i - 1][-30:]!r}' if i else 'another first value'
            continue
        if x != y:
            if isinstance(x, str) and isinstance(y, str):
                k = next((j for j in range(min(len(x), len(y))) if x[j] != y[j]), min(len(x), len(y)))
                return f'writes {x[max(0, k - 20):k + 20]!r} instead of {y[max(0, k - 20):k + 20]!r}'
            return f'{showtok(x)} instead of {showtok(y)}'
    if len(f.t) != len(exp.t):
        return f'{len(f.t)} pieces of text instead of {len(exp.t)}'
    return ''


def text(mod, cfg, R, what, shape, cases, g):
    for case in cases:
        S = Dump(g, mod, cfg, shape)
        f = S.method(what)
        where = f'{f.file}:{f.line}'
        msg = globals()['do_' + what](S, f, case)
        R('text', f'{what}/{"-".join(str(x) for x in case)}/{shape_name(shape)}/{cfg}', not msg, where, f'{what}: {msg}' if msg else '')


def do_dump_energies(S, f, case):
    app, = case
    m = S.m
    rk = S.sh['rank']
    snap = snapshot(S)
    err = S.run(f, m.newstr('en'), app)
    order = splist(S)
    msg = done(S, snap, err, [('en', 'a' if app else 'w')] if rk == 0 else [])
    if msg:
        return msg
    want = [('energy_f', S.fa % P)] + [('energy_p', x, S.ia % P) for x in order]
    if sorted(S.calls) != sorted(want):
        return 'the energies (collective sums) are not computed once per rank for the fields and each species'
    if rk:
        return ''
    w = []
    if not app:
        w += ['% Layout\n% step ex ey ez bx by bz'] + [f' "{spname(S, x)}"' for x in order] + ['\n% timestep = ', ('e', S.L(S.grid, 'grid', 'dt')), '\n']
    w += [f'{step_of(S)} ']
    for k in range(6):
        w += [('e', S.en(k))] + ([' '] if k < 5 else [])
    for x in order:
        w += [' ', ('e', S.en(x))]
    w += ['\n']
    return sametext(S.fl[0], w, 'energies')


def splist(S):
    m = S.m
    a = S.L(S.vp, 'vpic_simulation', 'species_list')
    out = []
    while a:
        out.append(a)
        a = S.L(a, 'species', 'next')
    return out


def spname(S, x):
    return S.m.cstr(S.L(x, 'species', 'name'))


def do_dump_species(S, f, case):
    m = S.m
    rk = S.sh['rank']
    snap = snapshot(S)
    err = S.run(f, m.newstr('spc'))
    msg = done(S, snap, err, [('spc', 'w')] if rk == 0 else [])
    if msg or rk:
        return msg
    w = []
    for x in splist(S):
        w += [f'{spname(S, x)} {sgn(S.L(x, "species", "id"))} ', ('e', S.L(x, 'species', 'q')), ' ', ('e', S.L(x, 'species', 'm')), '\n']
    return sametext(S.fl[0], w, 'species')


def do_dump_materials(S, f, case):
    m = S.m
    rk = S.sh['rank']
    snap = snapshot(S)
    err = S.run(f, m.newstr('mat'))
    msg = done(S, snap, err, [('mat', 'w')] if rk == 0 else [])
    if msg or rk:
        return msg
    w = []
    a = S.L(S.vp, 'vpic_simulation', 'material_list')
    while a:
        w += [f'{m.cstr(S.L(a, "material", "name"))}\n{sgn(S.L(a, "material", "id"))}\n']
        for r in (('epsx', 'epsy', 'epsz'), ('mux', 'muy', 'muz'), ('sigmax', 'sigmay', 'sigmaz')):
            w += [('e', S.L(a, 'material', r[0])), ' ', ('e', S.L(a, 'material', r[1])), ' ', ('e', S.L(a, 'material', r[2])), '\n']
        a = S.L(a, 'material', 'next')
    return sametext(S.fl[0], w, 'materials')


def do_global_header(S, f, case):
    fb, hb = case[0], case[1:]
    m = S.m
    rk = S.sh['rank']
    ps = [params(S, 'f', fb, (1, 1, 1), 0, 'fdir', 'fb')] + [params(S, 'h', b, (1, 1, 1), 0, f'hdir{i}', f'hb{i}') for i, b in enumerate(hb)]
    v = m.heap.alloc(24, 'string')
    arr = m.heap.alloc(8 * len(ps), 'string')
    for i, p in enumerate(ps):
        m.mem[(arr + 8 * i) % P] = p
    for i, x in enumerate((arr, arr + 8 * len(ps), arr + 8 * len(ps))):
        m.mem[(v + 8 * i) % P] = x % P
    snap = snapshot(S)
    err = S.run(f, m.newstr('global'), v)
    msg = done(S, snap, err, [('global.vpc', 'w')] if rk == 0 else [])
    if msg or rk:
        return msg
    G = lambda k: S.L(S.grid, 'grid', k)
    V = lambda k: sgn(S.L(S.vp, 'vpic_simulation', k))
    w = []

    def com(s):
        w.append('#' * 80 + f'\n# {s}\n' + '#' * 80 + '\n')

    def item(c, k, *vs, nl='\n\n'):
        if c:
            com(c)
        w.append(k)
        for x in vs:
            w.append(' ')
            w.append(x if isinstance(x, str) else ('f', x))
        w.append(nl)
    item('Header version information', 'VPIC_HEADER_VERSION 1.0.0')
    item('Header size for data file headers in bytes', 'DATA_HEADER_SIZE 123')
    item('Time step increment', 'GRID_DELTA_T', G('dt'))
    item('GRID_CVAC', 'GRID_CVAC', G('cvac'))
    item('GRID_EPS0', 'GRID_EPS0', G('eps0'))
    for a in 'xyz':
        item(f'Grid extents in the {a}-dimension', f'GRID_EXTENTS_{a.upper()}', G(a + '0'), G(a + '1'))
    for a in 'xyz':
        item(f'Spatial step increment in {a}-dimension', f'GRID_DELTA_{a.upper()}', G('d' + a))
    for a in 'xyz':
        item(f'Domain partitions in {a}-dimension', f'GRID_TOPOLOGY_{a.upper()}', str(V('p' + a)))
    com('Field data information')
    item('', 'FIELD_DATA_DIRECTORY', 'fdir', nl='\n')
    item('', 'FIELD_DATA_BASE_FILENAME', 'fb', nl='\n')

    def vars_(k, b, ix, tab):
        sel = [t for i, t in zip(ix, tab) if b >> i & 1]
        item('', k, str(len(sel)), nl='\n')
        for t in sel:
            w.append(f'"{t[0]}" {t[1]} {t[2]} {t[3]} {t[4]}\n')
    vars_('FIELD_DATA_VARIABLES', fb, FIX, FIELD)
    w.append('\n')
    item('Number of species with output data', 'NUM_OUTPUT_SPECIES', str(len(hb)))
    for i, b in enumerate(hb):
        com(f'Species({i + 1}) data information')
        item('', 'SPECIES_DATA_DIRECTORY', f'hdir{i}', nl='\n')
        item('', 'SPECIES_DATA_BASE_FILENAME', f'hb{i}', nl='\n')
        vars_('HYDRO_DATA_VARIABLES', b, HIX, HYDRO)
        if i < len(hb) - 1:
            w.append('\n')
    return sametext(S.fl[0], w, 'global header')


# -- refusals -----------------------------------------------------------------
def refused(mod, cfg, R, g):
    sh = dict(dims=(4, 6, 2), rank=0, nworld=2)
    where = [None]

    def tryit(inst, what, fn, text):
        S = Dump(g, mod, cfg, sh)
        f = S.method(what)
        err = fn(S, f)
        R('refused', f'{what}/{inst}/{cfg}', bool(err), f'{f.file}:{f.line}', '' if err else text)
    ns = lambda S, x: S.m.newstr(x)
    for bad, ax in (((3, 1, 1), 'x'), ((1, 4, 1), 'y'), ((1, 1, 3), 'z'), ((2, 4, 2), 'y'), ((8, 1, 1), 'x')):
        for fmt in (0, 1):
            tryit(f'stride{"".join(map(str, bad))}-{fmt}', 'field_dump', lambda S, f: S.run(f, params(S, 'f', M32 - 1, bad, fmt), 0, -1), f'a stride that does not divide the cells along {ax} is accepted')
            tryit(f'stride{"".join(map(str, bad))}-{fmt}', 'hydro_dump', lambda S, f: S.run(f, ns(S, 'sp_1'), params(S, 'h', M32 - 1, bad, fmt), 0, -1), f'a stride that does not divide the cells along {ax} is accepted')
    run = {
        'dump_energies': lambda S, f: S.run(f, ns(S, 'x'), 0), 'dump_species': lambda S, f: S.run(f, ns(S, 'x')), 'dump_materials': lambda S, f: S.run(f, ns(S, 'x')),
        'dump_grid': lambda S, f: S.run(f, ns(S, 'x')), 'dump_fields': lambda S, f: S.run(f, ns(S, 'x'), 1, 0), 'dump_hydro': lambda S, f: S.run(f, ns(S, 'sp_0'), ns(S, 'x'), 1, 0),
        'dump_particles': lambda S, f: S.run(f, ns(S, 'sp_0'), ns(S, 'x'), 1), 'field_dump': lambda S, f: S.run(f, params(S, 'f', 1, (1, 1, 1), 0), 0, -1),
        'hydro_dump': lambda S, f: S.run(f, ns(S, 'sp_0'), params(S, 'h', 1, (1, 1, 1), 0), 0, -1),
    }
    for n, r in run.items():
        def fail(S, f, how):
            setattr(S, how, True)
            return r(S, f)
        tryit('open', n, lambda S, f: fail(S, f, 'failopen'), 'a file that cannot be opened goes unnoticed')
        tryit('close', n, lambda S, f: fail(S, f, 'failclose'), 'a file that cannot be completed goes unnoticed')
    for n, r in (('dump_hydro', lambda S, f: S.run(f, ns(S, 'spx'), ns(S, 'x'), 1, 0)), ('dump_particles', lambda S, f: S.run(f, ns(S, 'sp_'), ns(S, 'x'), 1)),
                 ('hydro_dump', lambda S, f: S.run(f, ns(S, 'sp_00'), params(S, 'h', 1, (1, 1, 1), 0), 0, -1))):
        tryit('species', n, r, 'an unknown species is accepted')
    nul = {'dump_energies': (0, 0), 'dump_species': (0,), 'dump_materials': (0,), 'dump_grid': (0,), 'dump_fields': (0, 0, 0)}
    for n, a in nul.items():
        tryit('name', n, lambda S, f: S.run(f, *a), 'a missing file name is accepted')
