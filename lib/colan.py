"""Collision operators evaluated as ordered value graphs on a simulation built by the repository's
constructors: random generators return chosen values, rate and collision functions of the generic models are
events; the binary momentum transfers are checked for momentum, energy and scattering angle."""
import math, itertools
import ckan, stepan, vg, kern
from fractions import Fraction as Q
from vg import P, Graph
from kern import sgn
from whole import Whole
from absev import Aborted

AX = 'xyz'
W = 'src/collision/'
HALF = pow(2, P - 2, P)
FMIN = Q(1, 1 << 126)


def qr(q):
    return pow(q.numerator * pow(q.denominator, P - 2, P) % P, (P - 1) // 2, P) == 1


class ColScene(ckan.Scene):
    def __init__(self, mod, cfg, occ, npipe=1, same=False, late=False, weights=None, step=6, order=0):
        """occ: per species list of (voxel index, number of particles)"""
        n = max(sum(k for v, k in o) for o in occ)
        ckan.Scene.__init__(self, Graph(), mod, cfg, dict(dims=(2, 2, 1), nsp=2, np=0, nm=0, nmat=1, npipe=npipe, coll=False, emit=False, bufs=False, bcs=False))
        m, st = self.m, mod.structs
        self.base = m.stub
        h = m.rnd.h
        m.disp, m.wait, m.np_ = h(9, 1), h(9, 2), npipe
        to = kern.thread_offs(mod)
        if to:
            t = h(3, vg.crc('thread'))
            m.mem[(t + to[0]) % P], m.mem[(t + to[1]) % P] = m.disp, m.wait
        self.w = Whole(mod, m, late, self.stub2, 1 << 13)
        self.ab = self.w.ab
        self.ab.g = m.g
        m.ufun = self.ufun
        self.events = []
        self.draws = {}
        self.pa, self.n0 = [], []
        sz = st['particle'].size
        gs = st['grid']
        for k, v in (('dt', Q(1, 5)), ('dV', Q(3, 7)), ('cvac', Q(3, 2)), ('eps0', Q(2, 3))):
            m.setf(self.grid + gs.off(k), v)
        m.mem[(self.grid + gs.off('step')) % P] = step
        m.fty[(self.grid + gs.off('step')) % P] = False
        self.ms = [Q(5, 4), Q(7, 3)]
        self.qs = [Q(-3, 4), Q(2, 3)]
        import random
        r = random.Random(17 + order)
        for s in range(2):
            sp = self.sps[s]
            tot = sum(k for v, k in occ[s])
            b = m.heap.alloc((tot + 1) * sz, 'particles', 128)
            self.pa.append(b)
            self.n0.append(tot)
            for k, v in (('p', b), ('np', tot), ('max_np', tot + 1), ('last_sorted', step), ('partition', m.heap.alloc(4 * (self.nv + 1), 'partition', 128))):
                a = (sp + st['species'].off(k)) % P
                m.mem[a], m.fty[a] = v % P, False
            for k, q in (('m', self.ms[s]), ('q', self.qs[s])):
                m.setf(sp + st['species'].off(k), q)
            i = 0
            part = self.L(sp, 'species', 'partition')
            d = dict(occ[s])
            for v in range(self.nv + 1):
                m.mem[(part + 4 * v) % P], m.fty[(part + 4 * v) % P] = i, False
                for j in range(d.get(v, 0)):
                    a = (b + i * sz) % P
                    for k in ('dx', 'dy', 'dz', 'ux', 'uy', 'uz'):
                        m.setf(a + st['particle'].off(k), Q(r.randrange(-40, 40) * 2 + 1, r.choice((16, 20, 25))))
                    x = (a + st['particle'].off('i')) % P
                    m.mem[x], m.fty[x] = v, False
                    m.setf(a + st['particle'].off('w'), weights(s, i) if weights else Q(3, 2))
                    i += 1

    def ufun(self, nm, a, pit):
        if nm in ('cos', 'cosf', 'sin', 'sinf'):
            x = pit.apx(a[0])
            t = self.m.rnd.h(871, a[0])
            i = pow(1 + t * t % P, P - 2, P)
            r = (1 - t * t) * i % P if nm.startswith('cos') else 2 * t * i % P
            self.m.approx[r] = (math.cos if nm.startswith('cos') else math.sin)(x or 0.0)
            return r
        if nm == 'exp' and a[0] in self.m.approx:
            r = self.m.rnd.h(872, a[0])
            self.m.approx[r] = math.exp(self.m.approx[a[0]])
            return r
        return None

    def draw(self, kind, rng):
        raise NotImplementedError

    def stub2(self, ab, pit, callee, args, e):
        if isinstance(callee, tuple) and callee[0] == 'ind':
            r = self.indirect(callee[1], args)
            if r is not None:
                return r
        n = stepan.short(callee) if isinstance(callee, str) else ''
        if n == 'sort_p':
            self.events.append(('sort', args[0]))
            a = (args[0] + self.mod.structs['species'].off('last_sorted')) % P
            self.m.mem[a] = self.m.load((self.grid + self.mod.structs['grid'].off('step')) % P)
            return 0
        if n in ('frand', 'frand_c0', 'frand_c1', 'frand_c', 'drand', 'drand_c0', 'drand_c1', 'drand_c', 'frandn', 'drandn', 'uirand', 'irand'):
            return self.draw(n, args[0])
        if n in ('expm1', 'expm1f', 'exp', 'expf', 'sqrt', 'sqrtf', 'cos', 'sin'):
            if n.startswith('exp'):
                x = args[0] or 0
                q = pit.apx(x)
                a = self.m.rnd.h(872, x)
                self.m.approx[a] = math.exp(q)
                if n.startswith('expm1'):
                    b = (a - 1) % P
                    self.m.approx[b] = math.expm1(q)
                    return b
                return a
        return self.base(ab, pit, callee, args, e)

    def indirect(self, f, args):
        return None

    # -- particle access -------------------------------------------------
    def pf(self, s, i, k):
        return (self.pa[s] + i * self.mod.structs['particle'].size + self.mod.structs['particle'].off(k)) % P

    def u(self, s, i):
        return [self.m.load(self.pf(s, i, 'u' + k)) for k in AX]

    def ap(self, v):
        x = self.m.pit().apx(v)
        return x

    def who(self, a):
        sz = self.mod.structs['particle'].size
        for s in range(2):
            o = sgn((a - self.pa[s]) % P)
            if 0 <= o < self.n0[s] * sz:
                return s, o // sz, o % sz
        return None

    def op(self, n, *a):
        c = self.call(n, *a)
        self.call('append_collision_op', c, (self.vp + self.mod.structs['vpic_simulation'].off('collision_op_list')) % P)
        return c

    def apply(self):
        self.w.run(self.fn('apply_collision_op_list'), [self.m.load((self.vp + self.mod.structs['vpic_simulation'].off('collision_op_list')) % P)])

    def rngs(self):
        b = self.L(self.ent, 'rng_pool', 'rng')
        return [self.m.load((b + 8 * k) % P) for k in range(self.sh['npipe'])]

    def snap(self):
        return {(s, i, k): self.m.load(self.pf(s, i, k)) for s in range(2) for i in range(self.n0[s]) for k in ('dx', 'dy', 'dz', 'i', 'ux', 'uy', 'uz', 'w')}


RATE, COLL = 0x51a7e0, 0xc0111de


class Generic(ColScene):
    """generic unary / binary models: the rate and the collision are events"""

    def setup(self):
        self.rate_, self.coll_ = self.m.rnd.h(880), self.m.rnd.h(881)
        self.k = 0
        self.fd = 0
        self.pend = None

    def indirect(self, f, args):
        m = self.m
        if f == self.rate_:
            self.k += 1
            r = Q(1 + self.k * 7 % 13, 9 + self.k % 5) * self.scale
            if self.k % 6 == 3:
                r = Q(0)
            self.pend = ('rate', tuple(args), r)
            self.events.append(('rate', tuple(args), r))
            return m.real(r)
        if f == self.coll_:
            self.events.append(('coll', tuple(args)))
            return 0
        return None

    def draw(self, kind, rng):
        m = self.m
        self.fd += 1
        if kind == 'uirand':
            # values over the whole range, the extremes included
            h = (m.rnd.h(882, self.fd) >> 7) & 0xffffffff
            h = {3: 0x7fffffff, 7: 0}.get(self.fd % 11, h)
            if self.high and self.fd % 22 == 5:
                h = 0xffffffff
            self.events.append(('u', rng, h))
            return h
        if self.events and self.events[-1][0] == 'rate':
            pr = self.prob(self.events[-1])
            up = m.rnd.h(883, self.fd) % 2
            v = pr * (Q(9, 8) if up else Q(7, 8))
            v = min(v, Q(999, 1000))
            if m.rnd.h(885, self.fd) % 4 == 0:
                v = min(pr, Q(999, 1000))
            if self.fd % 9 == 4:
                v = Q(0)
            self.events.append(('f', rng, v, 'test'))
            return m.real(v)
        v = Q(m.rnd.h(884, self.fd) % 1000, 1000)
        self.events.append(('f', rng, v, 'other'))
        return m.real(v)


def before(S, ev):
    """a deviate drawn right before the rate is asked for"""
    k = [i for i, e in enumerate(S.events) if e is ev][0]
    return [S.events[k - 1]] if k and S.events[k - 1][0] == 'f' else []


def binary(mod, cfg, R, npipe, late, same, sample, interval, occ, scale, high):
    tag = f'{cfg}/{npipe} pipelines {"late" if late else "early"}/{"same species" if same else "two species"}/sample {sample}/interval {interval}/{occ}'
    S = Generic(mod, cfg, occ, npipe, late=late, weights=lambda s, i: Q(2 + (3 * i + s) % 4, 3))
    m, st = S.m, mod.structs
    S.setup()
    S.scale, S.high = scale, high
    si, sj = S.sps[0], S.sps[0 if same else 1]
    ia, ib = 0, 0 if same else 1
    part = lambda s, v: sgn(m.load((S.L(S.sps[s], 'species', 'partition') + 4 * v) % P))
    dt, dV = Q(1, 5), Q(3, 7)
    cand = {}
    for v in range(S.nv):
        nk = part(ia, v + 1) - part(ia, v)
        nl = part(ib, v + 1) - part(ib, v)
        if not nk or not nl:
            continue
        if same:
            npair, nc = nk * (nk + 1) // 2, int(Q(1, 2) + sample * nk / 2)
        else:
            npair, nc = nk * nl, int(Q(1, 2) + sample * max(nk, nl))
        cand[v] = (npair, nc)

    def wt(s, i):
        return Q(2 + (3 * i + s) % 4, 3)

    def prob(ev):
        a, b = S.who(ev[1][3]), S.who(ev[1][4])
        if a is None or b is None:
            return Q(1, 2)
        v = sgn(m.load(S.pf(a[0], a[1], 'i')))
        npair, nc = cand.get(v, (1, 1))
        return ev[2] * max(wt(a[0], a[1]), wt(b[0], b[1])) * dt * interval / dV * Q(npair, nc or 1)
    S.prob = prob
    wh = W + 'pipeline/binary_pipeline.cc'
    try:
        S.op('binary_collision_model', m.newstr('gen'), S.rate_, S.coll_, 0, si, sj, S.ent, m.real(sample), interval)
        old = S.snap()
        S.apply()
    except Aborted:
        R('pair', tag, False, wh, 'the binary collision model stops with an error')
        return
    for i in S.w.issues:
        R('pair', tag, False, wh, i)
    rngs = S.rngs()
    msg = {'pair': '', 'rate': '', 'update': '', 'stream': ''}

    def note(k, s):
        msg[k] = msg[k] or s
    count, hit = {}, set()
    seg, cur = [], None
    for ev in S.events:
        if ev[0] == 'rate':
            cur = [ev, []]
            seg.append(cur)
        elif cur is not None:
            cur[1].append(ev)
    owner = {}
    for ev, rest in seg:
        a = ev[1]
        x, y = S.who(a[3]), S.who(a[4])
        if a[1] != si or a[2] != sj or a[0] != 0:
            note('pair', 'the rate is asked for with wrong parameters or species')
        if x is None or y is None or x[0] != ia or y[0] != ib or x[2] or y[2]:
            note('pair', 'a candidate pair contains something that is no particle of the species')
            continue
        v, v2 = sgn(m.load(S.pf(ia, x[1], 'i'))), sgn(m.load(S.pf(ib, y[1], 'i')))
        if v != v2:
            note('pair', f'a particle of voxel {v} is paired with one of voxel {v2}')
            continue
        count[v] = count.get(v, 0) + 1
        hit.add((v, 0, x[1]))
        hit.add((v, 1, y[1]))
        fs = [e for e in rest if e[0] == 'f'] or before(S, ev)
        if not fs:
            note('rate', 'a candidate pair is decided without a random number')
            continue
        for e in rest:
            if e[0] in ('u', 'f'):
                if e[1] not in rngs:
                    note('stream', 'random numbers are not drawn from the pool of the model')
                elif owner.setdefault((v,), e[1]) != e[1] and e[0] == 'f':
                    note('stream', f'voxel {v} draws from two random generators')
        pr = prob(ev)
        cs = [e for e in rest if e[0] == 'coll']
        want = fs[0][2] < pr
        if len(cs) != (1 if want else 0):
            note('rate', f'a pair with collision probability {float(pr):.3g} {"does not collide" if want else "collides"} when the random number is {float(fs[0][2]):.3g} ({cand[v][0]} pairs, {cand[v][1]} candidates)')
            continue
        if not want:
            continue
        c = cs[0][1]
        if tuple(c[:5]) != tuple(a[:5]) or c[5] not in rngs:
            note('update', 'another pair collides than the one that was tested')
            continue
        wi, wj = wt(ia, x[1]), wt(ib, y[1])
        ty = sgn(c[6])
        light = 3 if wi == wj else 1 if wi < wj else 2
        if light == 3:
            t = 3
        else:
            f2 = [e for e in (fs[1:] if fs[0] in rest else []) if rest.index(e) < rest.index(cs[0])]
            if not f2:
                note('update', 'the heavier particle is updated without regard to the weights')
                continue
            t = 3 if max(wi, wj) * f2[0][2] < min(wi, wj) else light
        if ty != t:
            note('update', f'weights {wi} and {wj}: particle set {ty} is updated instead of {t}')
    for v, (npair, nc) in cand.items():
        if count.get(v, 0) != nc:
            note('pair', f'voxel {v} has {nc} candidate pairs, {count.get(v, 0)} are tested')
        if nc >= 40:
            for s, sid in ((0, ia), (1, ib)):
                for i in range(part(sid, v), part(sid, v + 1)):
                    if (v, s, i) not in hit:
                        note('pair', f'particle {i} of voxel {v} is never chosen in {nc} draws')
    for v in count:
        if v not in cand:
            note('pair', f'voxel {v} has no pairs but {count[v]} are tested')
    if S.snap() != old:
        note('update', 'particles are changed although no collision function does so')
    if len({o for o in owner.values()}) > npipe:
        note('stream', 'more random generators are used than there are pipelines')
    for k in msg:
        R(k, tag, not msg[k], wh, 'binary collision model: ' + msg[k] if msg[k] else '')


def unary(mod, cfg, R, npipe, late, interval, n):
    tag = f'{cfg}/{npipe} pipelines {"late" if late else "early"}/interval {interval}/{n} particles'
    S = Generic(mod, cfg, [[(5, n)], [(6, 2)]], npipe, late=late)
    m = S.m
    S.setup()
    S.scale, S.high = Q(1), False
    S.prob = lambda ev: ev[2] * Q(1, 5) * interval
    wh = W + 'pipeline/unary_pipeline.cc'
    try:
        S.op('unary_collision_model', m.newstr('gen'), S.rate_, S.coll_, 0, S.sps[0], S.ent, interval)
        old = S.snap()
        S.apply()
    except Aborted:
        R('pair', tag, False, wh, 'the unary collision model stops with an error')
        return
    rngs = S.rngs()
    msg = {'pair': '', 'rate': '', 'update': '', 'stream': ''}

    def note(k, s):
        msg[k] = msg[k] or s
    for i in S.w.issues:
        note('pair', i)
    seen = {}
    seg, cur = [], None
    for ev in S.events:
        if ev[0] == 'rate':
            cur = [ev, []]
            seg.append(cur)
        elif cur is not None:
            cur[1].append(ev)
    for ev, rest in seg:
        a = ev[1]
        x = S.who(a[2])
        if a[0] != 0 or a[1] != S.sps[0] or x is None or x[0] != 0 or x[2]:
            note('pair', 'the rate is asked for something that is no particle of the species')
            continue
        seen[x[1]] = seen.get(x[1], 0) + 1
        fs = [e for e in rest if e[0] == 'f'] or before(S, ev)
        if len(fs) < 1:
            note('rate', 'a particle is decided without a random number')
            continue
        if any(e[1] not in rngs for e in fs):
            note('stream', 'random numbers are not drawn from the pool of the model')
        cs = [e for e in rest if e[0] == 'coll']
        want = fs[0][2] < S.prob(ev)
        if len(cs) != (1 if want else 0):
            note('rate', f'a particle with collision probability {float(S.prob(ev)):.3g} {"does not collide" if want else "collides"} when the random number is {float(fs[0][2]):.3g}')
        elif want and (tuple(cs[0][1][:3]) != tuple(a[:3]) or cs[0][1][3] not in rngs):
            note('update', 'another particle collides than the one that was tested')
    for i in range(n):
        if seen.get(i, 0) != 1:
            note('pair', f'particle {i} of {n} is tested {seen.get(i, 0)} times')
    if S.snap() != old:
        note('update', 'particles are changed although no collision function does so')
    for k in msg:
        R(k, tag, not msg[k], wh, 'unary collision model: ' + msg[k] if msg[k] else '')


def gates(mod, cfg, R):
    """interval and sort of every operator"""
    for name in ('binary_collision_model', 'unary_collision_model', 'langevin', 'takizuka_abe'):
        for interval, step in ((3, 6), (3, 7), (0, 6), (-2, 6), (1, 5), (4, 6)):
            for stale in ((), (0,), (1,), (0, 1)):
                S = Generic(mod, cfg, [[(5, 3), (6, 2)], [(5, 2), (6, 1)]], 1, step=step)
                if S.find(name) is None:
                    continue
                m = S.m
                S.setup()
                S.scale, S.high = Q(1), False
                S.prob = lambda ev: Q(1, 2)
                for s in stale:
                    m.mem[(S.sps[s] + mod.structs['species'].off('last_sorted')) % P] = step - 1
                tag = f'{cfg}/{name}/interval {interval} step {step} stale {stale}'
                wh = W + {'binary_collision_model': 'binary.cc', 'unary_collision_model': 'unary.cc'}.get(name, name + '.cc')
                s0, s1 = S.sps
                args = {'binary_collision_model': (m.newstr('g'), S.rate_, S.coll_, 0, s0, s1, S.ent, m.real(Q(1)), interval),
                        'unary_collision_model': (m.newstr('g'), S.rate_, S.coll_, 0, s0, S.ent, interval),
                        'langevin': (m.real(Q(1, 3)), m.real(Q(1, 4)), s0, S.ent, interval),
                        'takizuka_abe': (m.newstr('g'), s0, s1, S.ent, m.real(Q(1, 9)), interval)}[name]
                try:
                    S.op(name, *args)
                    S.apply()
                except Aborted:
                    R('gate', tag, False, wh, f'{name} stops with an error')
                    continue
                act = [i for i, e in enumerate(S.events) if e[0] in ('rate', 'u', 'f')]
                srt = [e[1] for e in S.events if e[0] == 'sort']
                due = interval >= 1 and step % interval == 0
                msg = ''
                if bool(act) != due:
                    msg = f'{name} with interval {interval} {"does nothing" if due else "collides"} in step {step}'
                if not due and srt:
                    msg = msg or f'{name} sorts in a step in which it is not due'
                if due and name in ('binary_collision_model', 'takizuka_abe'):
                    want = {S.sps[s] for s in stale}
                    if not want <= set(srt):
                        msg = msg or f'{name} pairs particles by voxel although a species was not sorted in this step'
                    first = act[0] if act else 0
                    if any(e[0] == 'sort' for e in S.events[first:]):
                        msg = msg or f'{name} sorts after it began to collide'
                R('gate', tag, not msg, wh, msg)


class Lang(ColScene):
    def draw(self, kind, rng):
        k = len(self.events)
        self.events.append((kind, rng))
        v = self.m.rnd.h(885, k)
        self.m.approx[v] = ((k * 37 % 101) - 50) / 31
        return v


def langevin(mod, cfg, R, npipe, late, n, interval):
    wh = W + 'pipeline/langevin_pipeline.cc'
    tag = f'{cfg}/langevin/{npipe} pipelines {"late" if late else "early"}/{n} particles/interval {interval}'
    S = Lang(mod, cfg, [[(5, n)], [(6, 2)]], npipe, late=late)
    m = S.m
    kT, nu = Q(1, 3), Q(1, 4)
    try:
        S.op('langevin', m.real(kT), m.real(nu), S.sps[0], S.ent, interval)
        old = S.snap()
        S.apply()
    except Aborted:
        R('langevin', tag, False, wh, 'langevin stops with an error')
        return
    new = S.snap()
    msg = S.w.issues[0] if S.w.issues else ''
    for k in old:
        if (k[0] != 0 or k[2][0] != 'u') and old[k] != new[k]:
            msg = msg or f'langevin changes {k[2]} of particle {k[1]} of species {k[0]}'
    a = float(nu) * interval * 0.2
    dec = math.exp(-a)
    drv = math.sqrt((1 - math.exp(-2 * a)) * float(kT) / (float(S.ms[0]) * 1.5))
    draws = [e for e in S.events if e[0] in ('frandn', 'drandn')]
    vals = {m.rnd.h(885, k): m.approx[m.rnd.h(885, k)] for k in range(len(S.events))}
    used = []
    for i in range(n):
        for k in AX:
            o, v = S.ap(old[0, i, 'u' + k]), S.ap(new[0, i, 'u' + k])
            if v is None:
                msg = msg or f'u{k} of particle {i} has no value'
                continue
            x = (v - dec * o) / drv
            c = [y for y in vals.values() if abs(y - x) < 1e-4 * (1 + abs(x))]
            if not c:
                msg = msg or f'momentum u{k} of particle {i} is not decay * u + drive * (normal number) with decay exp(-nu dt) and drive sqrt((1-decay^2) kT/(m c))'
            else:
                used.append(c[0])
    if not msg and len(draws) != 3 * n:
        msg = f'{len(draws)} normal numbers are drawn for {n} particles'
    # each draw used once
    if not msg:
        from collections import Counter
        have = Counter(round(y, 9) for k, y in ((k, m.approx[m.rnd.h(885, k)]) for k in range(len(S.events))))
        if Counter(round(y, 9) for y in used) - have:
            msg = 'a normal number is used for two momenta'
    if any(e[1] not in S.rngs() for e in draws):
        msg = msg or 'normal numbers are not drawn from the pool of the operator'
    R('langevin', tag, not msg, wh, msg)


class TA(ColScene):
    """Takizuka-Abe: draws delimit the pairs"""
    frac = Q(1, 2)

    def draw(self, kind, rng):
        m = self.m
        if kind in ('uirand',):
            self.nu = getattr(self, 'nu', 0) + 1
            v = (m.rnd.h(886, self.nu) >> 7) & 0xffffffff
            if self.nu % 5 == 2:
                v = 0xffffffff
            self.events.append(('u', rng, len(self.ab.log)))
            return v
        if kind in ('frandn', 'drandn'):
            k = sum(e[0] == 'n' for e in self.events)
            q = Q((k * 29 % 41) - 20, 16) + Q(1, 64)
            self.events.append(('n', rng, len(self.ab.log), q, self.snap()))
            return m.real(q)
        self.events.append(('f', rng, len(self.ab.log)))
        return m.real(self.frac)


def dot(a, b):
    return sum(x * y for x, y in zip(a, b)) % P


def lensq(S, a):
    return sum(S.ap(x) ** 2 for x in a)


def ta(mod, cfg, R, npipe, late, same, occ, weights, frac, interval=2, cvar=Q(1, 7), order=0):
    wh = W + 'pipeline/takizuka_abe_pipeline.cc'
    tag = f'{cfg}/takizuka_abe/{npipe} pipelines {"late" if late else "early"}/{"same" if same else "two"} species/{occ}/{"equal" if weights is None else "unequal"} weights/{frac}/{cvar}/{order}'
    wf = weights or (lambda s, i: Q(3, 2))
    S = TA(mod, cfg, occ, npipe, late=late, weights=wf, order=order)
    S.frac = frac
    m, st = S.m, mod.structs
    ib = 0 if same else 1
    try:
        S.op('takizuka_abe', m.newstr('ta'), S.sps[0], S.sps[ib], S.ent, m.real(cvar), interval)
        old = S.snap()
        S.apply()
    except Aborted:
        R('pair', tag, False, wh, 'takizuka_abe stops with an error')
        return
    new = S.snap()
    msg = {'pair': '', 'angle': '', 'momentum': '', 'energy': '', 'update': ''}

    def note(k, s):
        msg[k] = msg[k] or s
    for i in S.w.issues:
        note('pair', i)
    KEEP = ('dx', 'dy', 'dz', 'i', 'w')
    for s in range(2):
        f = lambda d: sorted(tuple(d[s, i, k] for k in KEEP) for i in range(S.n0[s]))
        if f(old) != f(new):
            note('update', 'the particles after the collisions are not the particles before with new momenta')
        if [new[s, i, 'i'] for i in range(S.n0[s])] != [old[s, i, 'i'] for i in range(S.n0[s])]:
            note('update', 'particles leave the part of the list that belongs to their voxel')
    # pair segments
    st_ = [(k, e) for k, e in enumerate(S.events) if e[0] == 'n']
    po = st['particle']
    uo = {po.off('u' + k) for k in AX}
    seq = []
    for j, (k, e) in enumerate(st_):
        nxt = st_[j + 1][1] if j + 1 < len(st_) else None
        # next draw of any kind delimits the writes of this pair
        lo = e[2]
        hi = nxt[2] if nxt else len(S.ab.log)
        drawn = [x for x in S.events[k + 1:] if x[0] == 'u' and (nxt is None or x[2] < nxt[2])]
        if drawn:
            hi = min(hi, drawn[0][2])
        wr = []
        for a, v, ef in S.ab.log[lo:hi]:
            w = S.who(a)
            if w and w[2] in uo and w[:2] not in wr:
                wr.append(w[:2])
        before, after = e[4], None
        d = dict(before)
        for a, v, ef in S.ab.log[lo:hi]:
            w = S.who(a)
            if w and w[2] in uo:
                nm = next('u' + x for x in AX if po.off('u' + x) == w[2])
                d[w[0], w[1], nm] = v
        seq.append((wr, e[3], before, d))
    num = {0: {}, 1: {}}
    mm = S.ms
    mu = mm[0] * mm[ib] / (mm[0] + mm[ib])
    odd = {}
    for s in (0,):
        for v, k in occ[0]:
            odd[v] = same and k % 2 and k >= 3
    trip = {}
    for wr, n, b, d in seq:
        if len(wr) == 1 and weights is not None:
            continue
        if len(wr) != 2:
            note('pair', f'a collision updates {len(wr)} particles')
            continue
        (s1, i1), (s2, i2) = wr
        if not same and s1 > s2:
            (s1, i1), (s2, i2) = (s2, i2), (s1, i1)
        if (s1, s2) != (0, ib):
            note('pair', 'a collision updates particles of the wrong species')
            continue
        v, v2 = (sgn(b[s, i, 'i']) for s, i in ((s1, i1), (s2, i2)))
        if v != v2:
            note('pair', f'a particle of voxel {v} collides with one of voxel {v2}')
            continue
        num[0][i1] = num[0].get(i1, 0) + 1
        num[ib][i2] = num[ib].get(i2, 0) + 1
        ui, uj = ([b[s, i, 'u' + k] for k in AX] for s, i in ((s1, i1), (s2, i2)))
        vi, vj = ([d[s, i, 'u' + k] for k in AX] for s, i in ((s1, i1), (s2, i2)))
        wi, wj = (b[s, i, 'w'] for s, i in ((s1, i1), (s2, i2)))
        fi, fj = S.ap(wi), S.ap(wj)
        mi, mj = m.real(mm[s1]), m.real(mm[s2])
        ur = [(x - y) % P for x, y in zip(ui, uj)]
        di = [(x - y) % P for x, y in zip(vi, ui)]
        dj = [(x - y) % P for x, y in zip(vj, uj)]
        hi_ok = fi <= fj or float(frac) * fi <= fj      # particle i is updated
        hj_ok = fj <= fi or float(frac) * fj <= fi
        for ok, dd, who in ((hi_ok, di, 'first'), (hj_ok, dj, 'second')):
            if not ok and any(dd):
                note('update', f'weights {fi:.3g} {fj:.3g}, random number {float(frac)}: the heavier ({who}) particle is changed although it has to stay')
            if ok and not any(dd):
                note('update', f'weights {fi:.3g} {fj:.3g}, random number {float(frac)}: the {who} particle is not updated')
        # relative velocity change from either particle
        full = lambda x, mo, ms: [y * pow(mo, P - 2, P) % P * (mi + mj) % P * ms % P for y in x]
        if hi_ok and any(di):
            dur = [y * (mi + mj) % P * pow(mj, P - 2, P) % P for y in di]
        else:
            dur = [-y * (mi + mj) % P * pow(mi, P - 2, P) % P for y in dj]
        if hi_ok and hj_ok:
            for k in range(3):
                if (mi * di[k] + mj * dj[k]) % P:
                    note('momentum', 'a collision of particles of equal weight does not conserve momentum')
        r2 = [(x + y) % P for x, y in zip(ur, dur)]
        sq = dot(ur, ur)
        fu = [S.ap(ui[k]) - S.ap(uj[k]) for k in range(3)]
        if pow(sq, (P - 1) // 2, P) == 1 and qrT(ur, fu):
            if dot(r2, r2) != sq:
                note('energy', 'a collision changes the relative momentum, energy is not conserved')
        base = (lambda: [(S.ap(vi[k]) - S.ap(ui[k])) * float((mm[s1] + mm[s2]) / mm[s2]) for k in range(3)]) if hi_ok else (lambda: [-(S.ap(vj[k]) - S.ap(uj[k])) * float((mm[s1] + mm[s2]) / mm[s1]) for k in range(3)])
        fd = base()
        l1 = math.sqrt(sum((x + y) ** 2 for x, y in zip(fu, fd)))
        l0 = math.sqrt(sum(x * x for x in fu))
        if l0 == 0:
            continue
        if abs(l1 - l0) > 1e-3 * l0:
            note('energy', f'a collision changes the relative momentum by the factor {l1 / l0:.4g}')
        # scattering angle
        part = lambda s: [i for i in range(S.n0[s]) if sgn(old[s, i, 'i']) == v]
        dk = sum(float(wf(0, i)) for i in part(0))
        dl = sum(float(wf(ib, i)) for i in part(ib))
        dens = min(dk, dl)
        if same:
            dens = dk
            if trip.get(v, 0) < 3 and odd[v]:
                trip[v] = trip.get(v, 0) + 1
                dens = 0.5 * dk
        var = float(cvar) * float(S.qs[0]) ** 2 * float(S.qs[ib]) ** 2 / float(mu) ** 2 * dens * 0.2 * interval / (3 / 7)
        dd = min(1.0, math.sqrt(var) / l0 ** 1.5) * float(n)
        cs = 1 - 2 * dd * dd / (1 + dd * dd)
        have = 1 + sum(x * y for x, y in zip(fu, fd)) / (l0 * l0)
        if abs(cs - have) > 2e-3:
            note('angle', f'a collision scatters by an angle with cosine {have:.4f} instead of {cs:.4f}')
    occd = [dict(occ[0]), dict(occ[ib])]
    if weights is None:
        for v in range(S.nv):
            idx = [[i for i in range(S.n0[s]) if sgn(old[s, i, 'i']) == v] for s in (0, ib)]
            if same:
                n = len(idx[0])
                c = sorted(num[0].get(i, 0) + 0 for i in idx[0]) if ib else None
                tot = [num[0].get(i, 0) for i in idx[0]]
                want = [] if n < 2 else [1] * n if n % 2 == 0 else [1] * (n - 3) + [2] * 3
                if sorted(tot) != sorted(want) and n > 1 or n == 1 and tot != [0]:
                    note('pair', f'{n} particles of one species in a voxel collide {tot} times')
            else:
                a, b_ = len(idx[0]), len(idx[1])
                if not a or not b_:
                    if any(num[s].get(i) for s, x in ((0, idx[0]), (1, idx[1])) for i in x):
                        note('pair', 'particles collide in a voxel without partners')
                    continue
                t = [[num[s].get(i, 0) for i in x] for s, x in ((0, idx[0]), (1, idx[1]))]
                big, small = (t[0], t[1]) if a >= b_ else (t[1], t[0])
                nb, ns = len(big), len(small)
                if big != [1] * nb or sorted(small) != sorted([nb // ns + 1] * (nb % ns) + [nb // ns] * (ns - nb % ns)):
                    note('pair', f'{a} and {b_} particles in a voxel collide {t[0]} and {t[1]} times')
    for k in msg:
        R(k, tag, not msg[k], wh, 'Takizuka-Abe collisions: ' + msg[k] if msg[k] else '')


def qrT(ur, fu):
    """is the normalisation of the transverse vector a square for the smallest component dropped"""
    a = [abs(x) for x in fu]
    k = a.index(min(a))
    s = sum(x * x for j, x in enumerate(ur) if j != k) % P
    return pow(s, (P - 1) // 2, P) == 1


class Pair(ColScene):
    """explicit collision functions"""
    vals = ()

    def draw(self, kind, rng):
        m = self.m
        if kind in ('frandn', 'drandn'):
            k = sum(e[0] == 'n' for e in self.events)
            q = (Q(3, 7), Q(-5, 9), Q(11, 13))[k % 3]
            self.events.append(('n', rng, q))
            return m.real(q)
        k = sum(e[0] == 'f' for e in self.events)
        q = self.vals[k % len(self.vals)]
        self.events.append(('f', rng, q))
        return m.real(q)


def find_pair(kind, fluid, seeds):
    return seeds


def elastic(mod, cfg, R, kind, fluid, typ, order, ut0=False):
    """hard_sphere / large_angle_coulomb, binary or off a fluid"""
    wh = W + kind + '.cc'
    name = kind + ('_fluid' if fluid else '')
    tag = f'{cfg}/{name}/type {typ}/{order}{"/cold" if ut0 else ""}'
    S = Pair(mod, cfg, [[(5, 2)], [(5, 2)]], 1, order=order)
    m, st = S.m, mod.structs
    if S.find(name) is None:
        return
    # the point in the unit circle: one rejected, one accepted with 1-b^2 a square
    cand = [(Q(a, 32), Q(b, 32)) for a in range(5 + order, 28) for b in range(7, 25)]
    ok = [(x, y) for x, y in cand if 0 < (2 * x - 1) ** 2 + (2 * y - 1) ** 2 < Q(9, 10) and qr(1 - (2 * x - 1) ** 2 - (2 * y - 1) ** 2) and 2 * x != 1 and 2 * y != 1 and x != y]
    x, y = ok[(order * 7) % len(ok)]
    S.vals = (Q(31, 32), Q(1, 32), x, y)
    b2 = (2 * x - 1) ** 2 + (2 * y - 1) ** 2
    c = Q(3, 2)
    n0, vd, kT, m0, r0, rs, bmax, q0 = Q(2), (Q(1, 3), Q(-1, 4), Q(2, 5)), Q(0) if ut0 else Q(5, 7) ** 2 * Q(7, 3) * c * c, Q(7, 3), Q(1, 3), Q(1, 4), Q(2, 9), Q(4, 5)
    Rr = m.real
    try:
        if kind == 'hard_sphere':
            if fluid:
                op = S.op(name, m.newstr('x'), Rr(n0), *[Rr(v) for v in vd], Rr(kT), Rr(m0), Rr(r0), S.sps[0], Rr(rs), S.ent, 1)
            else:
                op = S.op(name, m.newstr('x'), S.sps[0], Rr(r0), S.sps[1], Rr(rs), S.ent, Rr(Q(1)), 1)
        else:
            if fluid:
                op = S.op(name, m.newstr('x'), Rr(n0), *[Rr(v) for v in vd], Rr(kT), Rr(q0), Rr(m0), S.sps[0], Rr(bmax), S.ent, 1)
            else:
                op = S.op(name, m.newstr('x'), S.sps[0], S.sps[1], Rr(bmax), S.ent, Rr(Q(1)), 1)
    except Aborted:
        R('rate', tag, False, wh, f'{name} refuses valid arguments')
        return
    cm = S.L(op, 'collision_op', 'params')
    ms = st['unary_collision_model' if fluid else 'binary_collision_model']
    g = lambda k: m.load((cm + ms.off(k)) % P)
    fr, fc = (mod.func(S.ab.fnname(g(k))) for k in ('rate_constant', 'collision'))
    pr = g('params')
    if fluid:
        okm = g('sp') == S.sps[0] and g('rp') == S.ent and sgn(g('interval')) == 1
    else:
        okm = g('spi') == S.sps[0] and g('spj') == S.sps[1] and g('rp') == S.ent and sgn(g('interval')) == 1 and g('sample') == Rr(Q(1))
    R('rate', tag + '/model', okm, wh, '' if okm else f'{name} passes wrong species, generator, sampling or interval to the model')
    m1, m2 = S.ms[0], (m0 if fluid else S.ms[1])
    q1, q2 = S.qs[0], (q0 if fluid else S.qs[1])
    pi = S.pf(0, 0, 'dx')
    pj = S.pf(1, 1, 'dx')
    ui, uj = S.u(0, 0), S.u(1, 1)
    fl = lambda v: [S.ap(z) for z in v]
    # rate
    K = math.pi * float((r0 + rs) ** 2 if kind == 'hard_sphere' else bmax ** 2) * float(c)
    if fluid:
        k = S.ab.call(fr, [pr, S.sps[0], pi])
        ud = [float(v / c) for v in vd]
        ur2 = sum((a - b) ** 2 for a, b in zip(fl(ui), ud))
        vt2 = float(kT / (m0 * c * c))
        a_, b_, c_ = 8 / math.pi, 4 / (12 - 3 * math.pi), (3 * math.pi - 8) / (24 - 6 * math.pi)
        want = K * float(n0) * math.sqrt((a_ * vt2 * vt2 + b_ * vt2 * ur2 + c_ * ur2 * ur2) / (vt2 + c_ * ur2))
    else:
        k = S.ab.call(fr, [pr, S.sps[0], S.sps[1], pi, pj])
        want = K * math.sqrt(sum((a - b) ** 2 for a, b in zip(fl(ui), fl(uj))))
    k = S.ap(k)
    good = k is not None and abs(k - want) < 1e-3 * want
    R('rate', tag + '/constant', good, wh, '' if good else f'{name}: rate constant {k} instead of {want:.6g}')
    old = S.snap()
    S.events.clear()
    rng = S.rngs()[0]
    if fluid:
        S.ab.call(fc, [pr, S.sps[0], pi, rng])
    else:
        S.ab.call(fc, [pr, S.sps[0], S.sps[1], pi, pj, rng, typ])
    new = S.snap()
    msg = {'update': '', 'momentum': '', 'energy': '', 'angle': ''}

    def note(k, s):
        msg[k] = msg[k] or f'{name}: {s}'
    may = set()
    if fluid or typ & 1:
        may |= {(0, 0, 'u' + a) for a in AX}
    if not fluid and typ & 2:
        may |= {(1, 1, 'u' + a) for a in AX}
    for key in old:
        if (old[key] != new[key]) and key not in may:
            note('update', f'{key[2]} of a particle is changed that has to stay (type {typ})')
    for key in may:
        if old[key] == new[key]:
            note('update', f'{key[2]} of a colliding particle is not updated (type {typ})')
    if any(e[1] != rng for e in S.events):
        note('update', 'random numbers come from another generator')
    di = [(new[0, 0, 'u' + a] - old[0, 0, 'u' + a]) % P for a in AX]
    dj = [(new[1, 1, 'u' + a] - old[1, 1, 'u' + a]) % P for a in AX]
    M1, M2 = Rr(m1), Rr(m2)
    if not fluid and typ == 3:
        if any((M1 * a + M2 * b) % P for a, b in zip(di, dj)):
            note('momentum', 'the collision does not conserve momentum')
    if fluid or typ & 1:
        dur = [a * (M1 + M2) % P * pow(M2, P - 2, P) % P for a in di]
    else:
        dur = [-a * (M1 + M2) % P * pow(M1, P - 2, P) % P for a in dj]
    if fluid:
        ns = [e[2] for e in S.events if e[0] == 'n']
        ut = Q(0) if ut0 else Q(5, 7)
        if ut and len(ns) != 3:
            note('update', f'{len(ns)} normal numbers for the momentum of the partner')
        ns = (ns + [Q(0)] * 3)[:3]
        # the root of the variance has either sign in the field
        parts = [([Rr(vd[a] / c + ut * n[a]) for a in range(3)], [Rr(vd[a] / c - ut * n[a]) for a in range(3)]) for n in itertools.permutations(ns)]
    else:
        parts = [(uj, uj)]
    res = []
    for w, w2 in parts:
        fu = [S.ap(a) - S.ap(b) for a, b in zip(ui, w)]
        e = False
        for x_ in (w, w2):
            ur = [(a - b) % P for a, b in zip(ui, x_)]
            r2 = [(a + b) % P for a, b in zip(ur, dur)]
            sq = dot(ur, ur)
            e = e or dot(r2, r2) == sq
            usable = pow(sq, (P - 1) // 2, P) == 1 and qrT(ur, fu)
            e = e or not usable
        fd = [(S.ap(new[0, 0, 'u' + a]) - S.ap(old[0, 0, 'u' + a])) * float((m1 + m2) / m2) for a in AX] if fluid or typ & 1 else [-(S.ap(new[1, 1, 'u' + a]) - S.ap(old[1, 1, 'u' + a])) * float((m1 + m2) / m1) for a in AX]
        l0 = sum(a * a for a in fu)
        l1 = sum((a + b) ** 2 for a, b in zip(fu, fd))
        have = 1 + sum(a * b for a, b in zip(fu, fd)) / l0
        if kind == 'hard_sphere':
            cs = 1 - 2 * float(1 - b2)
        else:
            B = 4 * math.pi * (2 / 3) * float(m1 * m2 / (m1 + m2)) * float(c * c) * l0 * float(bmax) / float(q1 * q2)
            cs = 1 - 2 / (1 + B * B * float(b2))
        res.append((e, abs(l1 - l0) < 1e-3 * l0, abs(have - cs) < 2e-3, have, cs))
    best = max(res, key=lambda t: t[:3])
    if not best[0] or not best[1]:
        note('energy', 'the collision changes the relative momentum, energy is not conserved')
    if not best[2]:
        note('angle', f'scattering angle with cosine {best[3]:.4f} instead of {best[4]:.4f} for the impact parameter drawn')
    for k in msg:
        R(k, tag, not msg[k], wh, msg[k])
