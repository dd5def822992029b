"""boundary_p: the hand-over of particles at domain faces and walls, evaluated as an ordered value
graph for every rank of small worlds (messages matched by source, destination, tag and order),
move_p / accumulate_rhob / the boundary handlers answered by recording stand-ins."""
import random
import vg, kern, proj
from vg import P, Graph
from kern import sgn, base_of
from bndan import DIRS, bidx, half
from absev import AModel, Abs, Aborted
from whole import Heap
from proj import Broken

AX = 'xyz'
FIELDS = ('dx', 'dy', 'dz', 'i', 'ux', 'uy', 'uz', 'w')


class World:
    """ranks x faces -> neighbour rank or None"""

    def __init__(self, name, n, face):
        self.name, self.n, self.face = name, n, face


def worlds():
    w = [World('line of 3', 3, lambda r: {(-1, 0, 0): r - 1 if r else None, (1, 0, 0): r + 1 if r < 2 else None, (0, -1, 0): r, (0, 1, 0): r}),
         World('periodic pair', 2, lambda r: {(0, 0, -1): 1 - r, (0, 0, 1): 1 - r, (1, 0, 0): r, (-1, 0, 0): r}),
         World('2x2 periodic in y', 4, lambda r: {(-1, 0, 0): r ^ 1 if r & 1 else None, (1, 0, 0): None if r & 1 else r ^ 1, (0, -1, 0): r ^ 2, (0, 1, 0): r ^ 2}),
         World('single', 1, lambda r: {d: r for d in DIRS}),
         World('handlers that always inject', 1, lambda r: {d: r for d in DIRS})]
    return w


NSP = 3


class BPM(AModel):
    def __init__(self, g, mod, world, rank, seed, shape, prev=None):
        AModel.__init__(self, g, 17)
        self.approx = {0: 0.0}
        self.fty = {}
        self.mod, self.world, self.rank = mod, world, rank
        S = self.S = mod.structs
        self.rx = random.Random(f'{seed}/{rank}/{shape.__name__}/{world.name}')
        h = self.rnd.h
        self.heap = Heap(self)
        self.statics(mod)
        self.bufs = {}
        if prev is not None:
            # what the process keeps from the call before: internal variables and the blocks they refer to
            self.heap.n, self.heap.blocks, self.heap.free = prev.heap.n, dict(prev.heap.blocks), list(prev.heap.free)
            for n, gl in mod.globals.items():
                if gl['internal'] and not n.startswith('.str'):
                    a = h(3, vg.crc(n))
                    for o in range(0, 64, 4):
                        if (a + o) % P in prev.mem:
                            self.mem[(a + o) % P] = prev.mem[(a + o) % P]
            for k, (a, size) in prev.bufs.items():
                self.bufs[k] = a, size
        self.gp, self.fa, self.fb, self.aa, self.ab_, self.nbb, self.rgb = (h(801, i) for i in range(7))
        gs = S['grid']
        for n, v in (('_world_size', world.n), ('_world_rank', rank)):
            self.mem[h(3, vg.crc(n))] = v
        self.NV = [300 + 40 * r for r in range(world.n)]
        self.range = [sum(self.NV[:r]) for r in range(world.n + 1)]
        self.mp = h(801, 9)
        for k, v in dict(neighbor=self.nbb, mp=self.mp, range=self.rgb, rangel=self.range[rank], rangeh=self.range[rank + 1] - 1).items():
            self.mem[(self.gp + gs.off(k)) % P] = v
        for r, v in enumerate(self.range):
            self.mem[(self.rgb + 8 * r) % P] = v
        fc = world.face(rank)
        self.bc = {d: fc.get(d) for d in DIRS}
        for d in DIRS:
            b = self.bc[d]
            self.mem[(self.gp + gs.off('bc') + 4 * bidx(d)) % P] = (-2 if b is None else b) % P
        self.mem[(self.fa + S['field_array'].off('f')) % P] = self.fb
        self.mem[(self.fa + S['field_array'].off('g')) % P] = self.gp
        self.mem[(self.aa + S['accumulator_array'].off('a')) % P] = self.ab_
        self.mem[(self.aa + S['accumulator_array'].off('g')) % P] = self.gp
        self.E = {k: proj.enum_const(mod, k) for k in ('reflect_particles', 'absorb_particles')}
        # user boundary conditions: 3 handlers with ids -3, -4, -5, list in another order
        pb = S['particle_bc']
        self.handlers = {}
        prev = 0
        for j in (1, 0, 2):
            a = h(803, j)
            fn, pr = h(804, j), h(805, j)
            self.handlers[fn] = (j, pr)
            for k, v in dict(params=pr, interact=fn, id=-3 - j, next=prev).items():
                self.mem[(a + pb.off(k)) % P] = v % P
            prev = a
        self.pbc = prev
        self.neigh = {}
        self.memfn.append(self.nbval)
        # species
        sp, pt, mv = S['species'], S['particle'], S['particle_mover']
        self.sp, self.init, self.movers = {}, {}, {}
        prev = 0
        ids = list(range(NSP))
        self.rx.shuffle(ids)
        # 'one sided': every mover leaves through the same face to another rank
        onward = next((k for k, d in enumerate(DIRS) if self.bc[d] is not None and self.bc[d] != rank), None) if shape.__name__ == 'one sided' else None
        for s in ids:
            a = h(806, s)
            np_, nm = shape(self.rx, s)
            mx = {0: np_, 1: np_ + 4, 2: 900}[self.rx.randrange(3)]
            mx, mnm = max(mx, 1), max(nm + self.rx.randrange(3), 1)
            pb_, pmb = self.heap.alloc(mx * pt.size, 'particles', 128), self.heap.alloc(mnm * mv.size, 'movers', 128)
            q = h(807, s)
            for k, v in dict(np=np_, max_np=mx, p=pb_, nm=nm, max_nm=mnm, pm=pmb, g=self.gp, id=s, next=prev, q=q).items():
                self.mem[(a + sp.off(k)) % P] = v % P
            self.fty[(a + sp.off('q')) % P] = True
            prev = a
            self.sp[s] = a
            parts = []
            mi = sorted(self.rx.sample(range(np_), nm))
            for n in range(np_):
                t = [h(808, s * 100000 + n * 10 + k) for k in range(8)]
                t[3] = self.rx.randrange(1, self.NV[rank])
                if n in mi:
                    t[3] = 8 * t[3] + (onward if onward is not None else self.rx.randrange(6))
                self.setp(pb_ + n * pt.size, t)
                parts.append(t)
            ms = []
            for j, n in enumerate(mi):
                d = [h(809, s * 100000 + n * 10 + k) for k in range(3)]
                for k in range(3):
                    self.mem[(pmb + j * mv.size + 4 * k) % P] = d[k]
                    self.fty[(pmb + j * mv.size + 4 * k) % P] = True
                self.mem[(pmb + j * mv.size + mv.off('i')) % P] = n
                self.fty[(pmb + j * mv.size + mv.off('i')) % P] = False
                ms.append((n, d))
            self.init[s], self.movers[s] = parts, ms
        self.list = prev
        self.rhob, self.hcalls, self.moves = [], [], []
        self.sends, self.openr, self.opens = [], {}, {}
        self.recvs = []
        self.issues = []
        self.warned = 0

    def setp(self, a, t):
        for k, nm in enumerate(FIELDS):
            self.mem[(a + self.S['particle'].off(nm)) % P] = t[k]
            self.fty[(a + self.S['particle'].off(nm)) % P] = k != 3

    def getp(self, a):
        return [self.geti(a + self.S['particle'].off(nm)) if nm == 'i' else self.load(a + self.S['particle'].off(nm)) for nm in FIELDS]

    def geti(self, a):
        """integer in memory, also if a vector copy has written it as a float"""
        v = self.load(a)
        return self.pit()._bits(v) if self.fty.get(a % P) else v

    def nbval(self, a):
        o = sgn(a - self.nbb)
        if 0 <= o < 48 * self.NV[self.rank] and o % 8 == 0:
            return self.nb(o // 48, o // 8 % 6) % P

    def nb(self, v, f):
        """what lies behind face f of voxel v: remote cell, absorbing wall, handler or an unknown code"""
        k = (v, f)
        if k not in self.neigh:
            r = random.Random(f'{self.rank}/{v}/{f}')
            d = DIRS[f]
            b = self.bc[d]
            if self.world.name.startswith('handlers'):
                self.neigh[k] = r.choice([-3, -4, -5])
            elif b is not None and b != self.rank:
                self.neigh[k] = self.range[b] + r.choice([0, r.randrange(self.NV[b]), self.NV[b] - 1])
            else:
                self.neigh[k] = r.choice([self.E['absorb_particles'], -3, -4, -5, -3, -6 if r.random() < .3 else self.E['absorb_particles']])
        return self.neigh[k]

    # ------------------------------------------------------------ stand-ins
    def stub(self, ab, pit, callee, args, e):
        h = self.rnd.h
        r = self.heap.stub(ab, pit, callee, args, e)
        if r is not NotImplemented:
            return r
        if isinstance(callee, tuple):
            hd = self.handlers.get(callee[1])
            if hd is None:
                raise Broken('indirect call of an unknown target')
            j, pr = hd
            t = self.getp(args[2])
            disp = [self.load(args[3] + 4 * k) for k in range(3)]
            s = next((s for s, a in self.sp.items() if a == args[1]), None)
            self.hcalls.append((j, s, tuple(t), tuple(disp), sgn(args[6])))
            if args[0] != pr:
                self.issues.append('a boundary handler gets the parameters of another one')
            if sgn(args[5]) < 1:
                self.issues.append('a boundary handler may not inject any particle')
            return self.inject(ab, pit, args[4], s, t, disp, j, e)
        nm = base_of(callee) if isinstance(callee, str) else ''
        if nm.startswith('move_p'):
            return self.move(ab, pit, args, e)
        if nm.startswith('accumulate_rhob'):
            s = next((s for s in self.sp if h(807, s) == args[3]), None)
            self.rhob.append((s, tuple(self.getp(args[1]))))
            if args[0] != self.fb or args[2] != self.gp:
                self.issues.append('accumulate_rhob gets other fields or another grid')
            return 0
        for k in ('mp_size_recv_buffer', 'mp_size_send_buffer', 'mp_recv_buffer', 'mp_send_buffer', 'mp_begin_recv', 'mp_begin_send', 'mp_end_recv', 'mp_end_send'):
            if nm.startswith(k):
                if args[0] != self.mp:
                    self.issues.append('another message layer object is used')
                return getattr(self, k)(ab, pit, [sgn(x) for x in args[1:]], e)
        if nm.startswith('mp_'):
            raise Broken(f'unexpected communication {nm}')
        if nm.startswith('print_log') or 'log_printf' in nm:
            self.warned += 1
            return 0
        return NotImplemented

    def inject(self, ab, pit, pi, s, t, disp, j, e):
        """what the handler makes of a particle: nothing or one injector of some species"""
        h = self.rnd.h
        n = spec_handler(h, s, t, disp, j)
        if n is None:
            return 0
        s2, t2, d2 = n
        o = self.S['particle_injector']
        for k, x in zip(FIELDS, t2):
            ab.put(pit, pi + o.off(k), x, 'i32' if k == 'i' else 'float', e)
        for k, x in zip(('dispx', 'dispy', 'dispz'), d2):
            ab.put(pit, pi + o.off(k), x, 'float', e)
        ab.put(pit, pi + o.off('sp_id'), s2, 'i32', e)
        return 1

    def move(self, ab, pit, args, e):
        h, mv = self.rnd.h, self.S['particle_mover']
        s = next((s for s, a in self.sp.items() if self.load(a + self.S['species'].off('p')) == args[0]), None)
        if s is None:
            self.issues.append('move_p is not given the particle array of a species')
            return 0
        if args[2] != self.ab_ or args[3] != self.gp or args[4] != h(807, s):
            self.issues.append('move_p is given other accumulators, another grid or another charge')
        n = sgn(self.geti(args[1] + mv.off('i')))
        a = args[0] + n * self.S['particle'].size
        t, d = self.getp(a), [self.load(args[1] + 4 * k) for k in range(3)]
        self.moves.append((s, tuple(t), tuple(d)))
        t2, d2, r = spec_move(h, s, t, d)
        for k, x in zip(FIELDS, t2):
            ab.put(pit, a + self.S['particle'].off(k), x, 'i32' if k == 'i' else 'float', e)
        for k in range(3):
            ab.put(pit, args[1] + 4 * k, d2[k], 'float', e)
        return r

    def buf(self, kind, port, size=None):
        b = self.bufs.get((kind, port))
        if size is not None and (b is None or b[1] < size):
            old = b
            a = self.heap.alloc(max(size, 1), f'{kind} buffer')
            if old:
                for o in range(0, old[1], 4):
                    if (old[0] + o) % P in self.mem:
                        self.mem[(a + o) % P] = self.mem[(old[0] + o) % P]
                        t = self.fty.get((old[0] + o) % P)
                        if t is not None:
                            self.fty[(a + o) % P] = t
                if (kind, port) in (self.opens if kind == 's' else self.openr):
                    self.issues.append('a buffer is resized while a message is under way')
            b = self.bufs[(kind, port)] = (a, size)
        if b is None:
            self.issues.append('a buffer is used before it is sized')
            b = self.buf(kind, port, 16)
        return b

    def mp_size_recv_buffer(self, ab, pit, a, e):
        self.buf('r', a[0], a[1])
        return 0

    def mp_size_send_buffer(self, ab, pit, a, e):
        self.buf('s', a[0], a[1])
        return 0

    def mp_recv_buffer(self, ab, pit, a, e):
        return self.buf('r', a[0])[0]

    def mp_send_buffer(self, ab, pit, a, e):
        return self.buf('s', a[0])[0]

    def mp_begin_recv(self, ab, pit, a, e):
        port, size, src, tag = a
        if ('r', port) in self.openr:
            self.issues.append('a receive is begun on a port with a receive under way')
        if self.buf('r', port)[1] < size:
            self.issues.append('a receive is larger than its buffer')
        self.openr[('r', port)] = (size, src, tag)
        return 0

    def mp_end_recv(self, ab, pit, a, e):
        r = self.openr.pop(('r', a[0]), None)
        if r is None:
            self.issues.append('a receive is ended that was not begun')
            return 0
        size, src, tag = r
        k = sum(1 for x in self.recvs if x[1:] == (src, tag))
        self.recvs.append((size, src, tag))
        q = [m for m in self.incoming if m[0] == src and m[1] == tag] if self.incoming is not None else None
        b = self.buf('r', a[0])[0]
        if q is None:
            ab.put(pit, b, 0, 'i32', e)
            return 0
        if k >= len(q):
            self.issues.append(f'a receive from rank {src} with tag {tag} has no matching send')
            ab.put(pit, b, 0, 'i32', e)
            return 0
        if q[k][2] != size:
            self.issues.append(f'a message of {q[k][2]} bytes meets a receive of {size} bytes')
        for o, v, t in q[k][3]:
            if o < size:
                ab.put(pit, b + o, v, 'float' if t else 'i32', e)
        return 0

    def mp_begin_send(self, ab, pit, a, e):
        port, size, dst, tag = a
        if ('s', port) in self.opens:
            self.issues.append('a send is begun on a port with a send under way')
        b = self.buf('s', port)
        if b[1] < size:
            self.issues.append('a send is larger than its buffer')
        c = [(o, self.load(b[0] + o), self.fty.get((b[0] + o) % P)) for o in range(0, size, 4)]
        self.opens[('s', port)] = (c, b[0])
        self.sends.append((dst, tag, size, c))
        return 0

    def mp_end_send(self, ab, pit, a, e):
        r = self.opens.pop(('s', a[0]), None)
        if r is None:
            self.issues.append('a send is ended that was not begun')
            return 0
        for o, v, t in r[0]:
            if self.load(r[1] + o) != v:
                self.issues.append('a send buffer is changed while the message is under way')
                break
        return 0


ALWAYS = [False]


def spec_handler(h, s, t, disp, j):
    k = h(820, j, t[7]) % 3
    if k == 0 and ALWAYS[0]:
        k = 1
    if k == 0:
        return None
    t2 = [h(821, x, i) for i, x in enumerate(t)]
    t2[3] = 1 + t[3] % 7
    return (s + k - 1) % NSP, t2, [h(822, x) for x in disp]


def spec_move(h, s, t, d):
    t2 = [h(823, x, i) for i, x in enumerate(t)]
    t2[7] = t[7]
    r = h(824, t[7]) & 1
    t2[3] = 8 * 5 + h(824, t[7]) % 6 if r else 9
    return t2, [h(825, x) for x in d] if r else d, r


SHAPES = {'mixed': lambda rx, s: ((lambda n: (n, rx.randrange(0, n + 1)))(rx.randrange(1, 9))),
          'all movers': lambda rx, s: ((lambda n: (n, n))(rx.randrange(1, 6))),
          'no movers': lambda rx, s: (rx.randrange(0, 4), 0),
          'one sided': lambda rx, s: (9, 7) if s == 1 else (0, 0),
          'many': lambda rx, s: (40, 33) if s != 2 else (3, 1)}

# total movers of successive calls: growing by little
GROWTH = {f'call {i}': (lambda n: lambda rx, s: (n[s] + 1, n[s]))(n) for i, n in enumerate(((0, 1, 0), (2, 0, 0), (1, 1, 1), (0, 3, 2), (2, 2, 2), (4, 4, 3), (5, 0, 7), (6, 7, 7), (1, 0, 2), (8, 8, 8)))}


def check(mod, cfg, R, thorough=False):
    f = mod.func('boundary_p')
    if f is None:
        raise Broken('boundary_p not found')
    where = f'{f.file}:{f.line}'
    S = mod.structs
    g = Graph()
    bad = dict.fromkeys(('conserve', 'absorb', 'handler', 'send', 'inject', 'mover-list', 'message', 'memory'))
    counts = dict(absorbed=0, sent=0, handled=0, dropped=0, injected=0, kept=0)

    def note(k, s):
        bad[k] = bad[k] or s
    inj = S['particle_injector']
    for w in worlds():
        ALWAYS[0] = w.name.startswith('handlers')
        prevs = {}
        for shn, shape in (GROWTH if ALWAYS[0] else SHAPES).items():
            shape.__name__ = shn
            if shn in ('all movers', 'one sided', 'many'):
                prevs = {}   # a new process: no buffer is larger than this call made it
            for seed in range(4 if thorough else 1):
                tag = f'({w.name}, {shn})'

                def go(rank, incoming):
                    m = BPM(g, mod, w, rank, seed, shape, prevs.get(rank))
                    m.incoming = incoming
                    ab = Abs(mod, m, m.stub, 1 << 12)
                    try:
                        ab.call(f, [m.pbc, m.list, m.fa, m.aa])
                    except Aborted:
                        note('conserve', f'valid input is refused {tag}')
                        return None, ab
                    return m, ab
                first = [go(r, None)[0] for r in range(w.n)]
                if None in first:
                    continue
                # the counts travel first; whatever is received does not change what is sent
                ms = []
                for r in range(w.n):
                    inc = [(q, t, size, c) for q in range(w.n) for (dst, t, size, c) in first[q].sends if dst == r]
                    m, ab = go(r, inc)
                    if m is None:
                        continue
                    ms.append(m)
                    if [x[:3] for x in m.sends] != [x[:3] for x in first[r].sends]:
                        note('message', f'what is sent depends on what is received {tag}')
                    for i in m.issues + m.heap.issues:
                        note('memory' if 'freed' in i else 'handler' if 'handler' in i else 'inject' if 'move_p' in i else 'absorb' if 'accumulate' in i else 'message', f'{i} {tag}')
                    if m.openr or m.opens:
                        note('message', f'returns with messages under way {tag}')
                    if len(m.recvs) != len(inc):
                        note('message', f'{len(inc)} messages are sent to a rank that receives {len(m.recvs)} {tag}')
                    o = m.heap.overrun(ab.log)
                    if o:
                        note('memory', f'{o[0]} {tag}')
                if len(ms) < w.n:
                    continue
                prevs = dict(enumerate(ms))
                h = ms[0].rnd.h
                # declarative outcome
                exp = [dict(rhob=[], hc=[], inj=[], send={}) for _ in ms]
                for r, m in enumerate(ms):
                    x = exp[r]
                    for s in m.sp:
                        for n, d in m.movers[s]:
                            t = list(m.init[s][n])
                            fc, t[3] = t[3] & 7, t[3] >> 3
                            nn = m.nb(t[3], fc)
                            if nn == m.E['absorb_particles']:
                                x['rhob'].append((s, tuple(t)))
                                counts['absorbed'] += 1
                            elif nn >= 0:
                                t2 = list(t)
                                t2[fc % 3] = 1 if fc < 3 else P - 1
                                b = m.bc[DIRS[fc]]
                                t2[3] = nn - m.range[b]
                                exp[b]['inj'].append((s, tuple(t2), tuple(d)))
                                x['send'].setdefault(DIRS[fc], []).append((s, tuple(t2), tuple(d)))
                                counts['sent'] += 1
                            elif -5 <= nn <= -3:
                                x['hc'].append((-nn - 3, s, tuple(t), tuple(d), fc))
                                q = spec_handler(h, s, t, d, -nn - 3)
                                counts['handled'] += 1
                                if q:
                                    x['inj'].append((q[0], tuple(q[1]), tuple(q[2])))
                            else:
                                counts['dropped'] += 1
                for r, m in enumerate(ms):
                    x = exp[r]
                    for k, have, want, what in (('absorb', m.rhob, x['rhob'], 'particles absorbed with their charge left behind'), ('handler', m.hcalls, x['hc'], 'particles given to the boundary handlers'),
                                                ('inject', m.moves, x['inj'], 'injected particles moved on')):
                        if sorted(have) != sorted(want):
                            note(k, f'the {what} are not the ones that hit such a face ({len(have)} against {len(want)}) on rank {r} {tag}')
                    if any(b is not None and b != r for b in m.bc.values()):
                        for d in DIRS:
                            if m.bc[d] in (None, r):
                                continue
                            got = [c for c in m.sends if c[0] == m.bc[d] and c[1] == bidx(d)]
                            want = x['send'].get(d, [])
                            if len(got) != 2:
                                note('message', f'{len(got)} messages instead of count and particles leave through face {d} {tag}')
                                continue
                            c = dict((o, v) for o, v, t in got[1][3])
                            l = []
                            if sgn(got[0][3][0][1]) != len(want) or got[1][2] < 16 + inj.size * len(want):
                                note('send', f'the count sent through face {d} is wrong {tag}')
                                continue
                            for n in range(len(want)):
                                o = 16 + n * inj.size
                                l.append((c[o + inj.off('sp_id')], tuple(c[o + inj.off(k)] for k in FIELDS), tuple(c[o + inj.off('disp' + k)] for k in AX)))
                            if sorted(l) != sorted(want):
                                note('send', f'the particles sent through face {d} are not the ones that crossed it {tag}')
                    for s, a in m.sp.items():
                        L = lambda k: sgn(m.load(a + S['species'].off(k)))
                        np_, nm, mx, mm = L('np'), L('nm'), L('max_np'), L('max_nm')
                        pb, pmb = m.load(a + S['species'].off('p')), m.load(a + S['species'].off('pm'))
                        gone = {n for n, d in m.movers[s]}
                        want = [tuple(t) for n, t in enumerate(m.init[s]) if n not in gone]
                        counts['kept'] += len(want)
                        wm = []
                        for s2, t, d in x['inj']:
                            if s2 == s:
                                counts['injected'] += 1
                                t2, d2, ret = spec_move(h, s, t, d)
                                want.append(tuple(t2))
                                if ret:
                                    wm.append((tuple(t2), tuple(d2)))
                        if np_ > mx or nm > mm:
                            note('memory', f'more particles or movers than the arrays hold {tag}')
                        for b, sz, n, what in ((pb, S['particle'].size, mx, 'particle'), (pmb, S['particle_mover'].size, mm, 'mover')):
                            if b in m.heap.free or m.heap.blocks.get(b, (-1,))[0] < sz * n:
                                note('memory', f'the {what} array is smaller than its recorded capacity or was freed {tag}')
                        if not 0 <= np_ < 4096 or not 0 <= nm < 4096:
                            note('conserve', f'the species has {np_} particles {tag}')
                            continue
                        have = [tuple(m.getp(pb + n * S['particle'].size)) for n in range(np_)]
                        if sorted(have) != sorted(want):
                            note('conserve', f'{len(have)} particles are left instead of the {len(want)} that stay or come in (or their data differ) on rank {r} {tag}')
                        hm, last = [], -1
                        for n in range(nm):
                            i = sgn(m.geti(pmb + n * S['particle_mover'].size + S['particle_mover'].off('i')))
                            if not 0 <= i < np_:
                                note('mover-list', f'a mover refers to particle {i} of {np_} {tag}')
                                continue
                            if i <= last:
                                note('mover-list', f'the particle indices of the movers do not increase {tag}')
                            last = i
                            hm.append((have[i], tuple(m.load(pmb + n * S['particle_mover'].size + 4 * k) for k in range(3))))
                        if sorted(hm) != sorted(wm):
                            note('mover-list', f'{len(hm)} particles are recorded for further moving instead of the {len(wm)} that move_p handed back {tag}')
    for k, b in bad.items():
        R('boundary', k, f'boundary_p/{cfg}', b is None, where, b or '')
    return counts
