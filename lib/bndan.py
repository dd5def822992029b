"""Local boundary conditions, ghost exchanges and plane synchronisations of the field and hydro
arrays: ordered value graphs evaluated for families of grid shapes and boundary placements, the
field data being algebraically generic; oracle: one declarative table of planes and image rules."""
import random
import vg, kern, absev, proj
from fractions import Fraction as Q
from vg import P, Graph
from kern import sgn, Field, base_of
from absev import AModel, Abs, Aborted
from proj import Broken

AX = 'xyz'
CYC = {0: (0, 1, 2), 1: (1, 2, 0), 2: (2, 0, 1)}


def inv(a):
    return pow(a % P, P - 2, P)


def bidx(d):
    return 13 + d[0] + 3 * d[1] + 9 * d[2]


DIRS = [(-1, 0, 0), (0, -1, 0), (0, 0, -1), (1, 0, 0), (0, 1, 0), (0, 0, 1)]


class BM(AModel):
    def __init__(self, g, mod, dims, seed, bc=None, nworld=3, me=1):
        AModel.__init__(self, g, seed)
        self.mod = mod
        S = self.S = mod.structs
        self.dims = dims
        nx, ny, nz = dims
        self.nv = (nx + 2) * (ny + 2) * (nz + 2)
        h = self.rnd.h
        self.gp, self.fa, self.fb, self.ha, self.hb = (h(801, i) for i in range(5))
        self.gs = S['grid']
        self.approx = {0: 0.0}
        for k, v in dict(nx=nx, ny=ny, nz=nz, sx=1, sy=nx + 2, sz=(nx + 2) * (ny + 2), nv=self.nv, mp=h(801, 9)).items():
            self.mem[(self.gp + self.gs.off(k)) % P] = v
        rnd = random.Random(seed)
        for k in ('dx', 'dy', 'dz', 'cvac', 'dt'):
            self.setf(self.gp + self.gs.off(k), Q(rnd.randrange(3, 40), 8))
        for k in 'xyz':
            self.mem[(self.gp + self.gs.off('rd' + k)) % P] = inv(self.G('d' + k))
        fas = S['field_array']
        self.mem[(self.fa + fas.off('f')) % P] = self.fb
        self.mem[(self.fa + fas.off('g')) % P] = self.gp
        if 'hydro_array' in S:
            hs = S['hydro_array']
            self.mem[(self.ha + hs.off('h')) % P] = self.hb
            self.mem[(self.ha + hs.off('g')) % P] = self.gp
            self.mem[(self.ha + hs.off('n_pipeline')) % P] = 1
            self.mem[(self.ha + hs.off('stride')) % P] = (self.nv + 1) // 2 * 2
        self.glob('_world_size', nworld)
        self.glob('_world_rank', me)
        self.bc = {}
        for d in DIRS:
            v = (bc or {}).get(d, me)
            self.bc[d] = v
            self.mem[(self.gp + self.gs.off('bc') + 4 * bidx(d)) % P] = v % P
        self.F = Field(self, self.fb, S['field'], dims)
        self.H = Field(self, self.hb, S['hydro'], dims, 'h')

    def glob(self, name, v):
        self.mem[self.rnd.h(3, vg.crc(name))] = v % P

    def G(self, k):
        return self.load(self.gp + self.gs.off(k))

    def decode(self, a):
        r = self.F.decode(a)
        if r:
            return ('f',) + r
        r = self.H.decode(a)
        if r:
            return ('h',) + r
        return None


def rng(a, b):
    return range(a, b + 1)


def plane(dims, ax, at, kind):
    """points of the plane `ax`=at carrying a quantity: kind is 'node', 'face' (normal component),
    or an axis (edge component along that axis)"""
    hi = [d + 1 for d in dims]
    b, c = [a for a in range(3) if a != ax]
    ext = {}
    for a in (b, c):
        if kind == 'node':
            ext[a] = dims[a] + 1
        elif kind == 'face':
            ext[a] = dims[a]
        else:
            ext[a] = dims[a] if a == kind else dims[a] + 1
    for v in rng(1, ext[c]):
        for u in rng(1, ext[b]):
            p = [0, 0, 0]
            p[ax], p[b], p[c] = at, u, v
            yield tuple(p)


class Spec:
    """expected memory, updated functionally"""

    def __init__(self, m, F):
        self.m, self.F = m, F
        self.w = {}

    def get(self, mb, p):
        a = self.F.addr(mb, *p)
        return self.w[a] if a in self.w else self.m.mem0(a)

    def put(self, mb, p, v):
        self.w[self.F.addr(mb, *p)] = v % P


def half(dims, d):
    ax = [abs(x) for x in d].index(1)
    lo = sum(d) < 0
    return ax, lo


# kind -> (what, image sign for anti_symmetric / symmetric=pmc / absorb rule)
def sp_local(name, m, s, g):
    dims = m.dims
    E = m.E
    anti, symm, pmc, absb = E['anti_symmetric_fields'], E['symmetric_fields'], E['pmc_fields'], E['absorb_fields']
    for d in DIRS:
        bc = m.bc[d]
        if 0 <= bc < m.nworld:
            continue
        if bc not in (anti, symm, pmc, absb):
            return 'abort'
        ax, lo = half(dims, d)
        n = dims[ax]
        own = 1 if lo else n + 1                # boundary plane of nodes / edges / faces
        ghost = 0 if lo else n + 1              # ghost cell layer
        step = [-x for x in d]
        sh = lambda p, k=1: tuple(p[i] + k * step[i] for i in range(3))
        X, Y, Z = CYC[ax]
        if name == 'local_ghost_tang_b':
            for c, o in ((Y, Z), (Z, Y)):
                # cb<c> lives on faces normal to c: in this plane like an edge along o
                pts = list(plane(dims, ax, ghost, o))
                if bc == anti:
                    for p in pts:
                        s.put('cb' + AX[c], p, s.get('cb' + AX[c], sh(p)))
                elif bc in (symm, pmc):
                    for p in pts:
                        s.put('cb' + AX[c], p, -s.get('cb' + AX[c], sh(p)))
                else:
                    cdt = lambda a: m.G('cvac') * m.G('dt') % P * m.G('rd' + AX[a]) % P
                    hg = m.higend if any(x > 1 for x in dims) else 1
                    k = cdt(ax) * hg % P
                    decay = (1 - k) * inv(1 + k) % P
                    drive = 2 * k * inv(1 + k) % P
                    sg = 1 if c == Z else -1     # curl orientation
                    for p in pts:
                        q = sh(p)
                        fp = list(p)
                        fp[ax] = own
                        fp = tuple(fp)
                        # cb<c>: -/+ d_ax e<o>, +/- d_o e<ax>
                        t1 = cdt(ax) * (s.get('e' + AX[o], sh(fp)) - s.get('e' + AX[o], fp)) % P
                        if not lo:
                            t1 = -t1
                        up = list(q)
                        up[o] += 1
                        t2 = cdt(o) * (s.get('e' + AX[ax], tuple(up)) - s.get('e' + AX[ax], q)) % P
                        v = decay * s.get('cb' + AX[c], p) + drive * s.get('cb' + AX[c], q) + sg * (t1 - t2)
                        s.put('cb' + AX[c], p, v)
        elif name == 'local_ghost_norm_e':
            for p in plane(dims, ax, ghost, 'node'):
                for mb in ('e' + AX[ax], 'tca' + AX[ax]):
                    a, b = s.get(mb, sh(p)), s.get(mb, sh(p, 2))
                    s.put(mb, p, a if bc == anti else -a if bc in (symm, pmc) else 2 * a - b)
        elif name == 'local_ghost_div_b':
            for p in plane(dims, ax, ghost, 'face'):
                a = s.get('div_b_err', sh(p))
                s.put('div_b_err', p, a if bc == anti else -a if bc in (symm, pmc) else 0)
        elif name == 'local_adjust_tang_e':
            if bc == anti:
                for c in (Y, Z):
                    for p in plane(dims, ax, own, c):
                        s.put('e' + AX[c], p, 0)
                        s.put('tca' + AX[c], p, 0)
        elif name == 'local_adjust_norm_b':
            if bc == symm:
                for p in plane(dims, ax, own, 'face'):
                    s.put('cb' + AX[ax], p, 0)
        elif name == 'local_adjust_div_e':
            if bc in (anti, absb):
                for p in plane(dims, ax, own, 'node'):
                    s.put('div_e_err', p, 0)
        elif name == 'local_adjust_jf':
            for c in (Y, Z):
                for p in plane(dims, ax, own, c):
                    s.put('jf' + AX[c], p, 0 if bc == anti else 2 * s.get('jf' + AX[c], p))
        elif name == 'local_adjust_rhof':
            for p in plane(dims, ax, own, 'node'):
                s.put('rhof', p, 0 if bc == anti else 2 * s.get('rhof', p))
        elif name == 'local_adjust_rhob':
            if bc == anti:
                for p in plane(dims, ax, own, 'node'):
                    s.put('rhob', p, 0)
    return None


LOCAL = ['local_ghost_tang_b', 'local_ghost_norm_e', 'local_ghost_div_b', 'local_adjust_tang_e', 'local_adjust_norm_b',
         'local_adjust_div_e', 'local_adjust_jf', 'local_adjust_rhof', 'local_adjust_rhob']
HIGEND = Q(103527618, 100000000)


def mk(g, mod, dims, seed, bc=None, nworld=3, me=1):
    m = BM(g, mod, dims, seed, bc, nworld, me)
    m.E = {k: proj.enum_const(mod, k) for k in ('anti_symmetric_fields', 'symmetric_fields', 'pmc_fields', 'absorb_fields')}
    m.nworld, m.me = nworld, me
    c = vg.frac_const(1.03527618)
    c32 = vg.frac_const(__import__('struct').unpack('f', __import__('struct').pack('f', 1.03527618))[0])
    m.higend = c32.numerator * inv(c32.denominator) % P
    snap = dict(m.mem)

    def mem0(a):
        a %= P
        return snap[a] if a in snap else m.rnd.h(1, 0, a)
    m.mem0 = mem0
    return m


def diff(m, spec, log, arrays, extra=()):
    """first disagreement between the expected and the evaluated memory"""
    touched = set(a for a, v, e in log)
    for a in sorted(touched | set(spec.w)):
        want = spec.w.get(a, m.mem0(a))
        have = m.load(a)
        if have != want:
            dd = m.decode(a)
            if dd is None:
                continue
            e = next((e for x, v, e in reversed(log) if x == a), None)
            return f'{dd[1]} at ({dd[2]},{dd[3]},{dd[4]})' + (' is not set' if a not in touched else ' gets the wrong value' if a in spec.w else ' is changed but is not part of the boundary'), e
    return None


def local_bc(mod, cfg, R, sizes=((2, 3, 4), (3, 1, 2), (1, 1, 1), (1, 4, 1), (70, 2, 1), (1, 70, 2), (2, 1, 70)), names=None):
    for name in names or LOCAL:
        f = mod.func(name)
        if f is None:
            raise Broken(f'{name} not found')
        where = f'{f.file}:{f.line}'
        bad = {}
        g = Graph()
        rnd = random.Random(1)
        cases = []
        E = {k: proj.enum_const(mod, k) for k in ('anti_symmetric_fields', 'symmetric_fields', 'pmc_fields', 'absorb_fields')}
        for bcname, bc in E.items():
            for d in DIRS:
                cases.append((bcname, {d: bc}, sizes[0]))
            for s in sizes[1:]:
                cases.append((bcname, {d: bc for d in DIRS}, s))
                if max(s) > 8:
                    for d in DIRS:
                        if s[half(s, d)[0]] == max(s):
                            cases.append((bcname, {d: bc}, s))
        for t in range(4):
            cases.append(('mixed', {d: rnd.choice(list(E.values()) + [0, 1, 2]) for d in DIRS}, sizes[t % len(sizes)]))
        cases.append(('invalid', {DIRS[1]: -77}, sizes[0]))
        cases.append(('invalid', {DIRS[3]: 9}, sizes[0]))
        for j, (bn, bc, dims) in enumerate(cases):
            m = mk(g, mod, dims, 11 + j, bc)
            ab = Abs(mod, m)
            s = Spec(m, m.F)
            r = sp_local(name, m, s, g)
            try:
                ab.call(f, [m.fb, m.gp])
                got = None
            except Aborted:
                got = 'abort'
            face = ', '.join(f'{"-+"[sum(d) > 0]}{AX[half(dims, d)[0]]}' for d in bc) if len(bc) == 1 else 'all faces'
            key = bn
            if r == 'abort':
                if got != 'abort' and name not in ():
                    bad.setdefault(key, ('an unknown boundary condition is accepted silently', where))
                continue
            if got == 'abort':
                bad.setdefault(key, (f'a valid boundary condition is rejected ({bn} on {face})', where))
                continue
            x = diff(m, s, ab.log, None)
            if x:
                msg, e = x
                loc = where
                if e is not None and getattr(e, 'ins', None) is not None:
                    try:
                        loc = f.loc(e.ins) or where
                    except Exception:
                        pass
                bad.setdefault(key, (f'{bn} on {face}, grid {dims}: {msg}', loc))
        for bn in list(E) + ['mixed', 'invalid']:
            b = bad.get(bn)
            R('local', 'local-bc', f'{name}/{bn}/{cfg}', b is None, b[1] if b else where, b[0] if b else '')


# ---------------------------------------------------------------------------
class Ports:
    """recording stand-in of the port layer"""

    def __init__(self, m, avail=None, incoming=None, selfloop=False):
        self.m = m
        self.avail = avail if avail is not None else set(DIRS)
        self.incoming = incoming
        self.selfloop = selfloop
        self.ev = []
        self.size = {}
        self.recvs = {}
        self.bufs = {}
        self.issues = []
        self.open_send, self.open_recv = set(), set()
        self.others = []
        self.writes = {}

    def sbuf(self, d):
        return self.m.rnd.h(811, bidx(d))

    def rbuf(self, d):
        return self.m.rnd.h(812, bidx(d))

    def stub(self, ab, pit, callee, args, e):
        nm = base_of(callee) if isinstance(callee, str) else ''
        for k in ('begin_recv_port', 'end_recv_port', 'size_send_port', 'begin_send_port', 'end_send_port'):
            if nm.startswith(k):
                d = tuple(sgn(x) for x in args[:3])
                n = sgn(args[3]) if k in ('begin_recv_port', 'size_send_port', 'begin_send_port') else None
                if d not in DIRS:
                    self.issues.append(f'{k} on direction {d}')
                    return 0
                g = args[4] if n is not None else args[3]
                if g != self.m.gp:
                    self.issues.append(f'{k} is given another grid')
                self.ev.append((k, d, n))
                return getattr(self, k)(ab, d, n)
        if nm.startswith('mp_allsum_d'):
            for i in range(sgn(args[2])):
                ab.put(pit, args[1] + 8 * i, self.m.load(args[0] + 8 * i), 'double', e)
            self.others.append('allsum')
            return 0
        if nm.startswith('reduce_hydro_array'):
            self.others.append('reduce')
            return 0
        return NotImplemented

    def begin_recv_port(self, ab, d, n):
        if d in self.open_recv:
            self.issues.append(f'two receives are open on port {d}')
        self.open_recv.add(d)
        self.recvs[d] = n
        return 0

    def end_recv_port(self, ab, d, n):
        if d not in self.open_recv:
            self.issues.append(f'receive {d} is finished but was not started')
        self.open_recv.discard(d)
        opp = tuple(-x for x in d)
        if opp not in self.avail:
            return 0
        b = self.rbuf(d)
        if self.incoming is not None:
            for i, v in enumerate(self.incoming(d, self.recvs.get(d, 0) // 4)):
                self.m.mem[(b + 4 * i) % P] = v
                self.m.fty[(b + 4 * i) % P] = True
        elif self.selfloop:
            if d not in self.bufs:
                self.issues.append(f'receive {d} is finished before the send {d} was started')
            for i, v in enumerate(self.bufs.get(d, [])):
                self.m.mem[(b + 4 * i) % P] = v
                self.m.fty[(b + 4 * i) % P] = True
        return b

    def size_send_port(self, ab, d, n):
        self.size[d] = n
        if d in self.open_send:
            self.issues.append(f'send buffer {d} is resized while it is being sent')
        return self.sbuf(d) if d in self.avail else 0

    def begin_send_port(self, ab, d, n):
        if d in self.open_send:
            self.issues.append(f'two sends are open on port {d}')
        self.open_send.add(d)
        if self.size.get(d) != n:
            self.issues.append(f'port {d}: {n} bytes sent from a buffer sized for {self.size.get(d)}')
        if d in self.avail:
            b = self.sbuf(d)
            w = set(a for a, v, e in ab.log)
            miss = [i for i in range(n // 4) if (b + 4 * i) % P not in w]
            if miss:
                self.issues.append(f'port {d}: {len(miss)} of the {n // 4} values sent were never written')
            over = [i for i in range(n // 4, n // 4 + 256) if (b + 4 * i) % P in w]
            if over or (b - 4) % P in w:
                self.issues.append(f'port {d}: values are written beyond the {n} bytes of the send buffer')
            self.bufs[d] = [self.m.load(b + 4 * i) for i in range(n // 4)]
        return 0

    def end_send_port(self, ab, d, n):
        if d not in self.open_send and d in self.avail:
            self.issues.append(f'send {d} is finished but was not started')
        self.open_send.discard(d)
        return 0

    def reads_beyond(self, d):
        return False


# what the planes exchanged consist of
def wanted(kind, dims, ax, at):
    """[(member, point)] set that has to cross a face normal to ax"""
    X, Y, Z = CYC[ax]
    out = []
    if kind == 'tang_b':
        for c, o in ((Y, Z), (Z, Y)):
            out += [('cb' + AX[c], p) for p in plane(dims, ax, at, o)]
    elif kind == 'norm_e':
        out += [('e' + AX[ax], p) for p in plane(dims, ax, at, 'node')]
    elif kind == 'div_b':
        out += [('div_b_err', p) for p in plane(dims, ax, at, 'face')]
    elif kind == 'tang_e_norm_b':
        out += [('cb' + AX[ax], p) for p in plane(dims, ax, at, 'face')]
        for c in (Y, Z):
            out += [(k + AX[c], p) for p in plane(dims, ax, at, c) for k in ('e', 'tca')]
    elif kind == 'jf':
        for c in (Y, Z):
            out += [('jf' + AX[c], p) for p in plane(dims, ax, at, c)]
    elif kind == 'rho':
        out += [(k, p) for p in plane(dims, ax, at, 'node') for k in ('rhof', 'rhob')]
    elif kind == 'hydro':
        out += [(k, p) for p in plane(dims, ax, at, 'node') for k in ('jx', 'jy', 'jz', 'rho', 'px', 'py', 'pz', 'ke', 'txx', 'tyy', 'tzz', 'tyz', 'tzx', 'txy')]
    return out


GH = {'tang_b': ('begin_remote_ghost_tang_b', 'end_remote_ghost_tang_b'), 'norm_e': ('begin_remote_ghost_norm_e', 'end_remote_ghost_norm_e'),
      'div_b': ('begin_remote_ghost_div_b', 'end_remote_ghost_div_b')}
SY = {'tang_e_norm_b': 'synchronize_tang_e_norm_b', 'jf': 'synchronize_jf', 'rho': 'synchronize_rho', 'hydro': 'synchronize_hydro_array'}
SZ = ((2, 3, 4), (3, 1, 2), (1, 1, 1), (70, 2, 1), (2, 1, 70), (1, 70, 2))


def layout(m, ports, F, d, kind, at):
    """the (member, point) of every entry of the message sent in direction d; None: header"""
    rev = {}
    ax, lo = half(m.dims, d)
    w = wanted(kind, m.dims, ax, at)
    for mb, p in w:
        rev[m.mem0(F.addr(mb, *p))] = (mb, p)
    out, bad = [], None
    for i, v in enumerate(ports.bufs.get(d, [])):
        if v in rev:
            out.append(rev[v])
        elif v == m.G('d' + AX[ax]):
            out.append(None)
        else:
            dd = None
            for mb, st, _, _ in ():
                pass
            out.append('?')
    miss = set(w) - set(x for x in out if isinstance(x, tuple))
    dup = [x for x in out if isinstance(x, tuple)]
    if '?' in out:
        bad = f'entry {out.index("?")} of the message in direction {d} is neither boundary data of that face nor the cell size'
    elif miss:
        mb, p = sorted(miss)[0]
        bad = f'{mb} at {p} is missing from the message in direction {d}'
    elif len(dup) != len(set(dup)):
        bad = f'a value is sent twice in direction {d}'
    return out, bad


def ghosts(mod, cfg, R, sizes=SZ, names=None):
    for kind, (bn, en) in GH.items():
        if names and kind not in names:
            continue
        fb, fe = mod.func(bn), mod.func(en)
        if fb is None or fe is None:
            raise Broken(f'{bn}/{en} not found')
        where = f'{fe.file}:{fe.line}'
        g = Graph()
        bad = {'layout': None, 'ghost': None, 'protocol': None}

        def note(k, s):
            bad[k] = bad[k] or s
        for j, dims in enumerate(sizes):
            for avail in (set(DIRS), {DIRS[j % 3]}, {DIRS[j % 3 + 3], DIRS[(j + 1) % 3]}, set()):
                m = mk(g, mod, dims, 31 + j)
                po = Ports(m, avail)
                S = {}

                def incoming(d, n, m=m, S=S):
                    S[d] = [m.rnd.h(820, bidx(d), i) for i in range(n)]
                    return S[d]
                po.incoming = incoming
                ab = Abs(mod, m, po.stub)
                ab.call(fb, [m.fb, m.gp])
                if any(m.decode(a) for a, v, e in ab.log):
                    note('ghost', 'starting the exchange changes field data')
                lay = {}
                for d in avail:
                    if d not in po.bufs:
                        note('protocol', f'nothing is sent through the face in direction {d}')
                        continue
                    ax, lo = half(dims, d)
                    lay[d], b = layout(m, po, m.F, d, kind, 1 if lo else dims[ax])
                    if b:
                        note('layout', f'{b} (grid {dims})')
                n0 = len(ab.log)
                ab.log.clear()
                ab.call(fe, [m.fb, m.gp])
                for i in po.issues:
                    note('protocol', f'{i} (grid {dims})')
                if po.open_recv or po.open_send & avail:
                    note('protocol', f'not finished: sends {sorted(po.open_send & avail)}, receives {sorted(po.open_recv)}')
                sent = [x for x in po.ev if x[0] == 'begin_send_port']
                for d in DIRS:
                    if d in avail and tuple(-x for x in d) in avail and po.recvs.get(d) != po.size.get(d):
                        note('protocol', f'direction {d}: {po.size.get(d)} bytes are sent, {po.recvs.get(d)} are received')
                if bad['layout'] or bad['protocol']:
                    continue
                s = Spec(m, m.F)
                for d in DIRS:
                    if tuple(-x for x in d) not in avail:
                        continue
                    ax, lo = half(dims, d)
                    src = d if d in lay else None
                    l = lay.get(d)
                    if l is None:
                        # layout of the partner's message: the same code on the other side
                        continue
                    at = dims[ax] + 1 if lo else 0
                    dx = m.G('d' + AX[ax])
                    hd = l.index(None) if None in l else None
                    rdx = S[d][hd] if hd is not None else dx
                    rw = 2 * dx * inv(rdx + dx) % P
                    lw = (rdx - dx) * inv(rdx + dx) % P
                    for i, x in enumerate(l):
                        if not isinstance(x, tuple):
                            continue
                        mb, p = x
                        q = list(p)
                        q[ax] = at
                        q = tuple(q)
                        nb = tuple(q[t] + d[t] for t in range(3))
                        s.put(mb, q, rw * S[d][i] + lw * s.get(mb, nb))
                if all(d in lay for d in DIRS if tuple(-x for x in d) in avail):
                    x = diff(m, s, ab.log, None)
                    if x:
                        note('ghost', f'ghost {x[0]} (grid {dims})')
        for k, b in bad.items():
            R('remote', k, f'ghost_{kind}/{cfg}', b is None, where, b or '')


RULE = {'tang_e_norm_b': lambda m, mb, dx, rdx, own, r: (own + r) * inv(2) % P,
        'jf': lambda m, mb, dx, rdx, own, r: 2 * (dx * own + rdx * r) * inv(dx + rdx) % P,
        'rho': lambda m, mb, dx, rdx, own, r: (2 if mb == 'rhof' else 1) * (dx * own + rdx * r) * inv(dx + rdx) % P,
        'hydro': lambda m, mb, dx, rdx, own, r: 2 * (dx * own + rdx * r) * inv(dx + rdx) % P}


def sync(mod, cfg, R, sizes=SZ, names=None):
    for kind, fn in SY.items():
        if names and kind not in names:
            continue
        f = mod.func(fn)
        if f is None:
            raise Broken(f'{fn} not found')
        where = f'{f.file}:{f.line}'
        g = Graph()
        bad = {'layout': None, 'shared': None, 'protocol': None, 'all-axes': None, 'local': None}

        def note(k, s):
            bad[k] = bad[k] or s
        arg = lambda m: m.ha if kind == 'hydro' else m.fa
        for j, dims in enumerate(sizes):
            F_ = lambda m: m.H if kind == 'hydro' else m.F
            lay = {}
            hdr = kind != 'tang_e_norm_b'
            # one axis at a time
            for ax in range(3):
                av = {d for d in DIRS if d[ax]}
                m = mk(g, mod, dims, 51 + j)
                po = Ports(m, av)
                S = {}

                def incoming(d, n, m=m, S=S):
                    S[d] = [m.rnd.h(820, bidx(d), i) for i in range(n)]
                    return S[d]
                po.incoming = incoming
                ab = Abs(mod, m, po.stub)
                ret = ab.call(f, [arg(m)])
                if kind == 'hydro' and po.others[:1] != ['reduce']:
                    note('protocol', 'the pipelines\' hydro blocks are not reduced first')
                for i in po.issues:
                    note('protocol', f'{i} (grid {dims})')
                if po.open_recv or po.open_send & av:
                    note('protocol', f'not finished: sends {sorted(po.open_send & av)}, receives {sorted(po.open_recv)}')
                s = Spec(m, F_(m))
                err = 0
                ok = True
                for d in sorted(av):
                    lo = sum(d) < 0
                    if d not in po.bufs:
                        note('protocol', f'nothing is sent in direction {d}')
                        ok = False
                        continue
                    lay[d], b = layout(m, po, F_(m), d, kind, 1 if lo else dims[ax] + 1)
                    if b:
                        note('layout', f'{b} (grid {dims})')
                        ok = False
                    if po.recvs.get(d) != po.size.get(d):
                        note('protocol', f'direction {d}: {po.size.get(d)} bytes are sent, {po.recvs.get(d)} are received')
                        ok = False
                if not ok:
                    continue
                for d in sorted(av):
                    lo = sum(d) < 0
                    at = dims[ax] + 1 if lo else 1
                    l = lay[d]
                    dx = m.G('d' + AX[ax])
                    rdx = S[d][l.index(None)] if None in l else dx
                    for i, x in enumerate(l):
                        if not isinstance(x, tuple):
                            continue
                        mb, p = x
                        q = list(p)
                        q[ax] = at
                        own = s.get(mb, q)
                        if kind == 'tang_e_norm_b' and not mb.startswith('tca'):
                            err += (own - S[d][i]) ** 2
                        s.put(mb, q, RULE[kind](m, mb, dx, rdx, own, S[d][i]))
                x = diff(m, s, ab.log, None)
                if x:
                    note('shared', f'shared {x[0]} (grid {dims}, {AX[ax]} faces)')
                if kind == 'tang_e_norm_b':
                    if 'allsum' not in po.others:
                        note('shared', 'the discrepancy is not summed over the domains')
                    elif ret is None or ret % P != err % P:
                        note('shared', 'the returned discrepancy is not the sum of squared differences')
            if any(bad.values()):
                continue
            # all axes, the domain being its own neighbour on every side
            m = mk(g, mod, dims, 71 + j)
            po = Ports(m, set(DIRS), None, True)
            ab = Abs(mod, m, po.stub)
            ab.call(f, [arg(m)])
            for i in po.issues:
                note('protocol', i)
            s = Spec(m, F_(m))
            for ax in range(3):
                snap = {}
                for d in (DIRS[ax], DIRS[ax + 3]):
                    lo = sum(d) < 0
                    snap[d] = {(mb, p): s.get(mb, p) for mb, p in wanted(kind, dims, ax, 1 if lo else dims[ax] + 1)}
                for d in (DIRS[ax], DIRS[ax + 3]):
                    lo = sum(d) < 0
                    at = dims[ax] + 1 if lo else 1
                    dx = m.G('d' + AX[ax])
                    for (mb, p), v in snap[d].items():
                        q = list(p)
                        q[ax] = at
                        s.put(mb, q, RULE[kind](m, mb, dx, dx, s.get(mb, q), v))
            x = diff(m, s, ab.log, None)
            if x:
                note('all-axes', f'after all three passes {x[0]} (grid {dims})')
            # local boundaries are adjusted before anything is exchanged
            E = m.E
            for bname in E:
                for d0 in (DIRS[j % 6], DIRS[(j + 4) % 6]):
                    m = mk(g, mod, dims, 91 + j, {d0: E[bname]})
                    po = Ports(m, set(), None)
                    ab = Abs(mod, m, po.stub)
                    ab.call(f, [arg(m)])
                    s = Spec(m, F_(m))
                    if kind == 'hydro':
                        ax, lo = half(dims, d0)
                        for mb, p in wanted('hydro', dims, ax, 1 if lo else dims[ax] + 1):
                            s.put(mb, p, 2 * s.get(mb, p))
                    else:
                        for nm in {'tang_e_norm_b': ('local_adjust_tang_e', 'local_adjust_norm_b'), 'jf': ('local_adjust_jf',), 'rho': ('local_adjust_rhof', 'local_adjust_rhob')}[kind]:
                            sp_local(nm, m, s, g)
                    x = diff(m, s, ab.log, None)
                    if x:
                        note('local', f'{bname} boundary: {x[0]}')
            # and before: adjusted values are what is sent
            d0 = DIRS[j % 3]
            dz = DIRS[(j + 1) % 3]
            m = mk(g, mod, dims, 95 + j, {d0: E['pmc_fields']})
            av = {dz, tuple(-x for x in dz)}
            po = Ports(m, av, None, True)
            ab = Abs(mod, m, po.stub)
            ab.call(f, [arg(m)])
            s = Spec(m, F_(m))
            if kind == 'hydro':
                ax, lo = half(dims, d0)
                for mb, p in wanted('hydro', dims, ax, 1 if lo else dims[ax] + 1):
                    s.put(mb, p, 2 * s.get(mb, p))
            else:
                for nm in {'tang_e_norm_b': ('local_adjust_tang_e', 'local_adjust_norm_b'), 'jf': ('local_adjust_jf',), 'rho': ('local_adjust_rhof', 'local_adjust_rhob')}[kind]:
                    sp_local(nm, m, s, g)
            ax = half(dims, dz)[0]
            snap = {d: {(mb, p): s.get(mb, p) for mb, p in wanted(kind, dims, ax, 1 if sum(d) < 0 else dims[ax] + 1)} for d in (DIRS[ax], DIRS[ax + 3])}
            for d in (DIRS[ax], DIRS[ax + 3]):
                at = dims[ax] + 1 if sum(d) < 0 else 1
                dx = m.G('d' + AX[ax])
                for (mb, p), v in snap[d].items():
                    q = list(p)
                    q[ax] = at
                    s.put(mb, q, RULE[kind](m, mb, dx, dx, s.get(mb, q), v))
            x = diff(m, s, ab.log, None)
            if x:
                note('local', f'local boundary next to a shared one: {x[0]}')
        for k, b in bad.items():
            R('remote', k, f'sync_{kind}/{cfg}', b is None, where, b or '')


def ports(mod, cfg, R, sizes=None, names=None):
    """the port layer: which buffer, partner and tag every direction uses"""
    fs = {k: mod.func(k) for k in ('begin_recv_port', 'end_recv_port', 'size_send_port', 'begin_send_port', 'end_send_port')}
    if any(v is None for v in fs.values()):
        raise Broken('port functions not found')
    g = Graph()
    bad = {k: None for k in fs}
    cls = {'begin_recv_port': ['mp_size_recv_buffer', 'mp_begin_recv'], 'end_recv_port': ['mp_end_recv', 'mp_recv_buffer'],
           'size_send_port': ['mp_size_send_buffer', 'mp_send_buffer'], 'begin_send_port': ['mp_begin_send'], 'end_send_port': ['mp_end_send']}
    for k, f in fs.items():
        for d in DIRS:
            for other in (0, 2, 1, -1, -4, 3, 7):
                m = mk(g, mod, (2, 3, 4), 3, {x: 1 for x in DIRS})
                opp = tuple(-x for x in d)
                me = opp if 'recv' in k else d
                m.mem[(m.gp + m.gs.off('bc') + 4 * bidx(me)) % P] = other % P
                calls = []

                def stub(ab, pit, callee, args, e):
                    nm = base_of(callee) if isinstance(callee, str) else '?'
                    for q in ('mp_size_recv_buffer', 'mp_begin_recv', 'mp_end_recv', 'mp_recv_buffer', 'mp_size_send_buffer', 'mp_send_buffer', 'mp_begin_send', 'mp_end_send'):
                        if nm.startswith(q):
                            calls.append((q, [args[0] == m.load(m.gp + m.gs.off('mp'))] + [sgn(x) for x in args[1:]]))
                            return 12345 if q.endswith('_buffer') and 'size' not in q else 0
                    return NotImplemented
                ab = Abs(mod, m, stub)
                n = 40
                args = [x % P for x in d] + ([n] if k in ('begin_recv_port', 'size_send_port', 'begin_send_port') else []) + [m.gp]
                r = ab.call(f, args)
                p = bidx(me)
                valid = 0 <= other < m.nworld
                want = [] if not valid else {
                    'begin_recv_port': [('mp_size_recv_buffer', [True, p, n]), ('mp_begin_recv', [True, p, n, other, bidx(d)])],
                    'end_recv_port': [('mp_end_recv', [True, p]), ('mp_recv_buffer', [True, p])],
                    'size_send_port': [('mp_size_send_buffer', [True, p, n]), ('mp_send_buffer', [True, p])],
                    'begin_send_port': [('mp_begin_send', [True, p, n, other, bidx(d)])],
                    'end_send_port': [('mp_end_send', [True, p])]}[k]
                if calls != want:
                    bad[k] = bad[k] or (f'direction {d} with {"neighbour domain" if valid else "no neighbour domain"} ({other}): makes {calls}, expected {want}')
                if k in ('end_recv_port', 'size_send_port') and (sgn(r) == 12345) != valid:
                    bad[k] = bad[k] or f'direction {d}: returns {"no" if valid else "a"} buffer'
    for k, f in fs.items():
        R('remote', 'port', f'{k}/{cfg}', bad[k] is None, f'{f.file}:{f.line}', bad[k] or '')


CFGS = ['ref', 'v4sse', 'v8avx2', 'v8omp', 'v16portable']
THOROUGH = ((2, 3, 4), (3, 1, 2), (1, 1, 1), (1, 4, 1), (4, 1, 1), (1, 1, 5), (5, 4, 3), (2, 2, 1), (6, 5, 7))


def run(ctx, fn, names, rule_of):
    """fn over every (name, build configuration), in parallel"""
    from par import pmap
    mods = {c: ctx.mod(c, norm=proj.NORMV) for c in CFGS}
    tasks = [(c, n) for n in names for c in CFGS]

    def one(t):
        c, n = t
        res = []
        kw = dict(sizes=THOROUGH) if ctx.thorough and fn is not ports else {}
        fn(mods[c], c, lambda cat, rule, inst, ok, where, msg: res.append((ok, rule, inst, where, msg)), names=[n] if n else None, **kw)
        return res
    for t, r in zip(tasks, pmap(one, tasks)):
        if r[0] == 'ok':
            for ok, rule, inst, where, msg in r[1]:
                ctx.expect(ok, rule, inst, where, msg)
            ctx.saw(t[1] or fn.__name__)
        elif r[0] == 'broken' and r[1].startswith('compile failed'):
            raise Broken(r[1])
        elif r[0] == 'broken':
            ctx.undecided(f'{t[1] or fn.__name__}/{t[0]}', r[1])
        else:
            raise Broken(f'{t}: {r[1][-600:]}')


def run_tasks(ctx, tasks, one, label=lambda t: '/'.join(map(str, t))):
    """one(task) -> list of (rule, instance, ok, where, msg); Broken tasks become undecided sites"""
    from par import pmap
    for t, r in zip(tasks, pmap(one, tasks)):
        if r[0] == 'ok':
            for rule, inst, ok, where, msg in r[1]:
                if rule is None:
                    ctx.undecided(inst, msg)
                else:
                    ctx.expect(ok, rule, inst, where, msg)
        elif r[0] == 'broken' and r[1].startswith('compile failed'):
            raise Broken(r[1])
        elif r[0] == 'broken':
            ctx.undecided(label(t), r[1])
        else:
            raise Broken(f'{label(t)}: {r[1][-600:]}')
