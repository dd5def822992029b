"""Boundary handlers and emitters evaluated as ordered value graphs on a simulation built by the repository's
constructors: random generators return chosen values, move_p and accumulate_rhob are events."""
import math, itertools
import ckan, stepan, vg
from fractions import Fraction as Q
from vg import P, Graph
from kern import sgn
from absev import Aborted

AX = 'xyz'
WR, WA, WC = 'src/boundary/maxwellian_reflux.cc', 'src/boundary/absorb_tally.cc', 'src/emitter/child_langmuir.cc'
UNI = ('frand_c0', 'frand', 'frand_c1', 'frand_c', 'drand', 'drand_c0', 'drand_c1', 'drand_c')


def close(a, b, tol=2e-4):
    return a is not None and b is not None and abs(a - b) <= tol * max(abs(a), abs(b), 1e-9)


class EmScene(ckan.Scene):
    def __init__(self, mod, cfg, seed=0, np=0, **k):
        ckan.Scene.__init__(self, Graph(), mod, cfg, dict(dims=(2, 3, 2), nsp=3, np=np, nm=0, nmat=1, npipe=1, coll=False, emit=False, bufs=False, bcs=False, **k))
        m, st = self.m, mod.structs
        self.base = m.stub
        self.ab.stub = self.stub
        self.moved = 0
        self.events = []
        self.seed = seed
        self.V = {}
        for a, ax in enumerate(AX):
            d = Q(1, 2 + a) + Q(seed % 3, 7)
            self.V['d' + ax] = d
            m.setf(self.grid + st['grid'].off('d' + ax), d)
            m.setf(self.grid + st['grid'].off('rd' + ax), 1 / d)
        for n, v in (('cvac', Q(3, 2)), ('dt', Q(1, 5)), ('eps0', Q(7, 3))):
            self.V[n] = v
            m.setf(self.grid + st['grid'].off(n), v)
        self.lst = m.load((self.vp + st['vpic_simulation'].off('species_list')) % P)

    def stub(self, ab, pit, callee, args, e):
        n = stepan.short(callee) if isinstance(callee, str) else ''
        m = self.m
        if n in ('frande', 'drande', 'frandn', 'drandn') or n in UNI:
            k = len(self.events) + 5 * self.seed
            q = Q(1 + k * 29 % 61, 37)
            if n.endswith('n'):
                q -= Q(31, 37)
            if n in UNI:
                q = Q(k * 29 % 61, 61)
            self.events.append(('e' if n.endswith('e') else 'n' if n.endswith('n') else 'c', n, args[0], q))
            return m.real(q)
        if n in ('move_p', 'accumulate_rhob'):
            self.events.append((n, tuple(args), self.pstate(args[1] if n == 'accumulate_rhob' else None), self.mstate(args[1]) if n == 'move_p' else None))
            return self.moved if n == 'move_p' else 0
        return self.base(ab, pit, callee, args, e)

    def pstate(self, a):
        if a is None:
            return None
        return {x[0]: self.m.load((a + x[1]) % P) for x in self.mod.structs['particle'].members}

    def mstate(self, a):
        return {x[0]: self.m.load((a + x[1]) % P) for x in self.mod.structs['particle_mover'].members}

    def ap(self, v):
        return self.m.pit().apx(v)

    def setm(self, a, s, k, v):
        x = (a + self.mod.structs[s].off(k)) % P
        self.m.mem[x], self.m.fty[x] = v % P, False

    def setf(self, a, s, k, q):
        self.m.setf(a + self.mod.structs[s].off(k), q)

    def all(self, skip):
        """memory outside the given address ranges"""
        def inside(a):
            return any(0 <= sgn((a - b) % P) < n for b, n in skip)
        return {a: v for a, v in self.m.mem.items() if not inside(a)}


def handler(S, pbc):
    f = S.ab.fnname(S.L(pbc, 'particle_bc', 'interact'))
    return S.mod.func(f), S.m.load((pbc + S.mod.structs['particle_bc'].off('params')) % P)


def particle(S, seed):
    """a particle, its mover, an injector with room for two"""
    m, st = S.m, S.mod.structs
    h = m.heap.alloc
    p, pm, pi = h(2 * st['particle'].size, 'p', 16), h(2 * st['particle_mover'].size, 'pm', 16), h(2 * st['particle_injector'].size, 'pi', 16)
    q = {}
    for k, x in enumerate(('dx', 'dy', 'dz', 'ux', 'uy', 'uz', 'w')):
        q[x] = Q((k * 37 + seed * 11) % 41 - 20, 23)
        if x == 'w':
            q[x] = Q(5 + seed, 3)
        m.setf(p + st['particle'].off(x), q[x])
    S.setm(p, 'particle', 'i', 17)
    q['i'] = 17
    # the remaining displacement is along the momentum, some fraction of the step
    g = math.sqrt(1 + sum(float(q['u' + a]) ** 2 for a in AX))
    fr = Q(1 + seed % 4, 7)
    rem = {}
    for a in AX:
        d = q['u' + a] * fr / S.V['d' + a]
        rem[a] = d
        m.setf(pm + st['particle_mover'].off('disp' + a), d)
    S.setm(pm, 'particle_mover', 'i', 0)
    return p, pm, pi, q, rem, g


def reflux(mod, cfg, R, face, seed):
    S = EmScene(mod, cfg, seed)
    m, st = S.m, mod.structs
    tag = f'{cfg}/face {face}/{seed}'
    msg = ''
    try:
        pbc = S.call('maxwellian_reflux', S.lst, S.ent)
        T = {}
        for k, sp in enumerate(S.sps):
            T[k] = (Q(2 + k, 5 + seed % 3), Q(7 - k, 11))
            S.call('set_reflux_temp', pbc, sp, m.real(T[k][0]), m.real(T[k][1]))
        f, par = handler(S, pbc)
        k = seed % 3
        sp = S.sps[k]
        p, pm, pi, q, rem, g = particle(S, seed)
        sid = S.geti((sp + st['species'].off('id')) % P) if hasattr(S, 'geti') else sgn(m.load((sp + st['species'].off('id')) % P))
        sz = st['particle_injector'].size
        before = S.all([(pi, sz)])
        S.events.clear()
        r = S.ab.call(f, [par, sp, p, pm, pi, 2, face])
        after = S.all([(pi, sz)])
    except Aborted:
        R('reflux', tag, False, WR, 'maxwellian reflux stops with an error')
        return
    x = {y[0]: m.load((pi + y[1]) % P) for y in st['particle_injector'].members}
    out = []
    if sgn(r) != 1:
        out.append(f'{sgn(r)} particles are reported for one that is refluxed')
    if any(after.get(a) != v for a, v in before.items()):
        out.append('memory besides one injector is changed')
    for n in ('dx', 'dy', 'dz', 'w'):
        if x[n] != m.real(q[n]):
            out.append(f'{n} of the refluxed particle is not the one of the particle')
    if sgn(x['i']) != 17 or sgn(x['sp_id']) != sid:
        out.append('voxel or species of the refluxed particle is not the one of the particle')
    rng0 = m.load(S.L(S.ent, 'rng_pool', 'rng') % P)
    if any(e[2] != rng0 for e in S.events):
        out.append('random numbers do not come from the given pool')
    e = [y[3] for y in S.events if y[0] == 'e']
    n = [y[3] for y in S.events if y[0] == 'n']
    axis, sign = face % 3, 1 if face < 3 else -1
    if len(e) != 1 or len(n) != 2 or len(S.events) != 3:
        out.append(f'{len(e)} exponential and {len(n)} normal deviates make the momentum')
    else:
        un = sign * float(T[k][0]) * math.sqrt(2 * float(e[0]))
        u = {a: S.ap(x['u' + a]) for a in AX}
        if not close(u[AX[axis]], un):
            out.append(f'momentum along the wall normal is {u[AX[axis]]} instead of {un:.5g}')
        tr = [a for a in range(3) if a != axis]
        t = [float(T[k][1] * v) for v in n]
        have = [u[AX[a]] for a in tr]
        if not any(close(have[0], y) and close(have[1], z) for y, z in (t, t[::-1])):
            out.append('momenta along the wall are not the perpendicular temperature times the normal deviates')
        else:
            v2 = sum(v * v for v in u.values())
            L = math.sqrt(sum(float(rem[a] * S.V['d' + a]) ** 2 for a in AX))
            u0 = math.sqrt(g * g - 1)
            for a in AX:
                want = u[a] / math.sqrt(1 + v2) * (g / u0) * L / float(S.V['d' + a])
                if not close(S.ap(x['disp' + a]), want):
                    out.append(f'remaining displacement along {a} is {S.ap(x["disp" + a])} instead of {want:.5g}')
    R('reflux', tag, not out, WR, 'maxwellian reflux: ' + out[0] if out else '')


def absorb(mod, cfg, R, seed):
    S = EmScene(mod, cfg, seed)
    m, st = S.m, mod.structs
    tag = f'{cfg}/{seed}'
    out = []
    try:
        pbc = S.call('absorb_tally', S.lst, S.fa)
        f, par = handler(S, pbc)
        t = S.call('get_absorb_tally', pbc)
        n0 = [m.load((t + 4 * j) % P) for j in range(3)]
        hits = [(seed + j * j) % 3 for j in range(3 + seed % 3)]
        p, pm, pi, q, rem, g = particle(S, seed)
        S.events.clear()
        before = S.all([(t, 12)])
        rs = [sgn(S.ab.call(f, [par, S.sps[k], p, pm, pi, 2, seed % 6])) for k in hits]
        after = S.all([(t, 12)])
    except Aborted:
        R('absorb', tag, False, WA, 'absorb_tally stops with an error')
        return
    if any(n0):
        out.append('the tally does not start at zero')
    if any(rs):
        out.append('an absorbed particle is injected again')
    if any(after.get(a) != v for a, v in before.items()):
        out.append('memory besides the tally is changed')
    ids = {sgn(m.load((sp + st['species'].off('id')) % P)): k for k, sp in enumerate(S.sps)}
    for j in range(3):
        if sgn(m.load((t + 4 * j) % P)) != hits.count(ids.get(j)):
            out.append(f'{sgn(m.load((t + 4 * j) % P))} particles of species {j} are counted, {hits.count(ids.get(j))} were absorbed')
    f_ = m.load((S.fa + st['field_array'].off('f')) % P)
    ev = [e for e in S.events if e[0] == 'accumulate_rhob']
    want = [(f_, p, S.grid, m.load((S.sps[k] + st['species'].off('q')) % P)) for k in hits]
    if [e[1][:4] for e in ev] != want or any(e[0] == 'move_p' for e in S.events):
        out.append('the charge of an absorbed particle is not added to the bound charge once, with the charge of its species')
    R('absorb', tag, not out, WA, 'absorb_tally: ' + out[0] if out else '')


def emit(mod, cfg, R, faces, seed, nemit, room, rmov, moved, how):
    """faces: list of (axis, side or None), how: field relative to the threshold"""
    S = EmScene(mod, cfg, seed, np=0)
    m, st = S.m, mod.structs
    tag = f'{cfg}/{faces}/{nemit} per face/room {room} movers {rmov}/{how}/{moved}/{seed}'
    out = []
    S.moved = moved
    sp = S.sps[seed % 3]
    qs, ms = [Q(-3, 4), Q(5, 6)][seed % 2], Q(7, 5)
    utp, utt, th, nrm = Q(3, 7), Q(2, 9), Q(4, 11) if seed % 3 else Q(0), Q(5, 8)
    np0, nm0 = seed % 3, seed % 2
    try:
        S.setf(sp, 'species', 'q', qs)
        S.setf(sp, 'species', 'm', ms)
        for k, v in (('np', np0), ('nm', nm0), ('max_np', np0 + room), ('max_nm', nm0 + rmov)):
            S.setm(sp, 'species', k, v)
        PB, MB = m.heap.alloc((np0 + room + 1) * st['particle'].size, 'particles', 128), m.heap.alloc((nm0 + rmov + 1) * st['particle_mover'].size, 'movers', 128)
        S.setm(sp, 'species', 'p', PB)
        S.setm(sp, 'species', 'pm', MB)
        em = S.call('child_langmuir', sp, S.ia, S.fa, S.aa, S.ent, nemit, m.real(utp), m.real(utt), m.real(th), m.real(nrm))
        comp = S.call('size_emitter', em, len(faces))
        I = m.load((S.ia + st['interpolator_array'].off('i')) % P)
        E = []
        for j, (a, side) in enumerate(faces):
            v = 16 + 3 * j
            d = [0, 0, 0]
            if side is not None:
                d[a] = side
            x = (comp + 4 * j) % P
            m.mem[x], m.fty[x] = (v << 5 | 13 + d[0] + 3 * d[1] + 9 * d[2]), False
            into = -(side or -1)
            for b in range(3):
                # the other components would pass (or fail) the test the other way
                e = (1 if b != a else 1) * th
                big = {'above': th + Q(1, 3 + j), 'equal': th, 'below': th - Q(1, 50), 'reverse': -th - Q(1, 2)}[how if b == a else {'above': 'reverse', 'equal': 'above', 'below': 'above', 'reverse': 'above'}[how]]
                val = big * (1 if qs > 0 else -1) * into
                m.setf(I + v * st['interpolator'].size + st['interpolator'].off('e' + AX[b]), val)
                if b == a:
                    E.append(val)
        S.events.clear()
        okr = [(PB + np0 * st['particle'].size, room * st['particle'].size), (MB + nm0 * st['particle_mover'].size, rmov * st['particle_mover'].size),
               ((sp + st['species'].off('np')) % P, 4), ((sp + st['species'].off('nm')) % P, 4)]
        before = S.all(okr)
        S.ab.call(S.fn('apply_emitter_list'), [em])
        after = S.all(okr)
    except Aborted:
        R('emit', tag, False, WC, 'child_langmuir stops with an error')
        return
    if any(after.get(a) != v for a, v in before.items()):
        out.append('memory besides the free particles and movers of the species is changed')
    fac = [j for j, (a, s) in enumerate(faces) if s is not None and how == 'above']
    want = min(room, nemit * len(fac))
    np1, nm1 = (sgn(m.load((sp + st['species'].off(k)) % P)) for k in ('np', 'nm'))
    rng0 = m.load(S.L(S.ent, 'rng_pool', 'rng') % P)
    if any(e[0] in 'enc' and e[2] != rng0 for e in S.events):
        out.append('random numbers do not come from the given pool')
    if np1 != np0 + want:
        out.append(f'{np1 - np0} particles are emitted instead of {want} ({len(fac)} faces, {nemit} per face, room for {room})')
    else:
        F = m.load((S.fa + st['field_array'].off('f')) % P)
        A = m.load((S.aa + st['accumulator_array'].off('a')) % P)
        ev = S.events
        rho = [k for k, e in enumerate(ev) if e[0] == 'accumulate_rhob']
        mv = [k for k, e in enumerate(ev) if e[0] == 'move_p']
        if len(rho) != want:
            out.append(f'the bound charge is corrected {len(rho)} times for {want} particles')
        wmv = want if moved == 0 else min(want, rmov)
        if rmov == 0:
            wmv = 0
        if len(mv) != wmv:
            out.append(f'{len(mv)} of {wmv} emitted particles are aged')
        if nm1 != nm0 + (wmv if moved else 0):
            out.append(f'{nm1 - nm0} movers are kept for {wmv if moved else 0} unfinished particles')
        for t in range(want):
            if out:
                break
            j = fac[t // nemit]
            a, side = faces[j]
            e, pa = E[j], (PB + (np0 + t) * st['particle'].size) % P
            k = rho[t]
            if ev[k][1][0] != F or ev[k][1][1] != pa or ev[k][1][2] != S.grid or ev[k][1][3] != m.real(-qs):
                out.append('the charge left behind by an emitted particle is wrong')
            x = ev[k][2]
            if S.pstate(pa) != x:
                out.append('the particle is changed after its charge was accounted for')
            lo = rho[t - 1] if t else -1
            mine = [y for y in ev[lo + 1:k] if y[0] in 'enc']
            nxt = [y for y in ev[k + 1:(rho[t + 1] if t + 1 < want else len(ev))]]
            es, ns = [y[3] for y in mine if y[0] == 'e'], [y[3] for y in mine if y[0] == 'n']
            # the deviate of the age of the particle before belongs to that one
            cs = [y[3] for q_, y in enumerate(ev) if y[0] == 'c' and lo < q_ < k and not any(lo < mm < k and q_ < mm for mm in mv)]
            o = [b for b in range(3) if b != a]
            if len(es) != 1 or len(ns) != 2 or len(cs) != 2:
                out.append('momentum and place of an emitted particle are not made of one exponential, two normal and two uniform deviates')
                break
            if not close(S.ap(x['u' + AX[a]]), -side * float(utp) * math.sqrt(2 * float(es[0]))):
                out.append('the momentum along the normal is wrong')
            for nm, vals, f in (('u', ns, lambda v: utt * v), ('d', cs, lambda v: 2 * v - 1)):
                have = sorted(x[nm + AX[b]] for b in o)
                if have != sorted(m.real(f(v)) for v in vals):
                    out.append('momenta along the face are wrong' if nm == 'u' else 'the place on the face is not uniform')
            if x['d' + AX[a]] != m.real(Q(side)) or sgn(x['i']) != 16 + 3 * j:
                out.append('a particle is not emitted on its face')
            L, B = S.V['d' + AX[a]], [S.V['d' + AX[b]] for b in o]
            w = float(nrm * S.V['eps0'] * S.V['dt'] * B[0] * B[1]) / math.sqrt(abs(float(qs * ms)) * float(L)) * abs(float(e)) ** 1.5 / nemit
            if not close(S.ap(x['w']), w):
                out.append(f'weight {S.ap(x["w"])} instead of {w:.6g} by the Child-Langmuir law')
            if t < len(mv):
                km = mv[t]
                ca = [y[3] for q_, y in enumerate(ev) if y[0] == 'c' and k < q_ < km]
                arg, mo = ev[km][1], ev[km][3]
                if arg[0] != PB or arg[2] != A or arg[3] != S.grid or arg[4] != m.real(qs) or sgn(mo['i']) != np0 + t:
                    out.append('the emitted particle is moved with wrong arguments')
                u = {b: S.ap(x['u' + AX[b]]) for b in range(3)}
                gm = math.sqrt(1 + sum(v * v for v in u.values()))
                if len(ca) != 1:
                    out.append('the age is not made of one uniform deviate')
                elif not all(close(S.ap(mo['disp' + AX[b]]), float(ca[0] * S.V['cvac'] * S.V['dt'] / S.V['d' + AX[b]]) * u[b] / gm) for b in range(3)):
                    out.append('the displacement of an aged particle is not age c dt u/gamma in cell units')
                if moved:
                    z = S.mstate((MB + (nm0 + t) * st['particle_mover'].size) % P)
                    if z != mo:
                        out.append('the mover of an unfinished particle is not kept')
    R('emit', tag, not out, WC, 'child_langmuir: ' + out[0] if out else '')
