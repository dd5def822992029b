"""move_p: trajectories through several cells against the specification (exact rationals)"""
import random
import vg, kern, absev, proj
from fractions import Fraction as Q
from vg import P, Graph
from kern import sgn
from absev import AModel, Abs
from proj import Broken

AX = 'xyz'


def fe(q):
    q = Q(q)
    return q.numerator * pow(q.denominator, P - 2, P) % P


def quads(q, d, mid):
    out = []
    for a, b, c in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
        v5 = q * d[0] * d[1] * d[2] / 3
        for sb, sc in ((-1, -1), (1, -1), (-1, 1), (1, 1)):
            out.append(q * d[a] * (1 + sb * mid[b]) * (1 + sc * mid[c]) + sb * sc * v5)
    return out


def spec(r, d, u, voxel, nb, lo, hi, refl, q):
    """expected outcome: deposits {voxel: 12 values}, final state"""
    r, d, u = list(r), list(d), list(u)
    dep = {}
    hist = []
    for it in range(64):
        best, axis = Q(1), 3
        for a in range(3):
            if d[a] == 0:
                continue
            s = ((1 if d[a] > 0 else -1) - r[a]) / (2 * d[a])
            if s < best:
                best, axis = s, a
        sd = [best * x for x in d]
        mid = [r[a] + sd[a] for a in range(3)]
        dd = dep.setdefault(voxel, [Q(0)] * 12)
        for i, v in enumerate(quads(q, sd, mid)):
            dd[i] += v
        d = [d[a] - sd[a] for a in range(3)]
        r = [r[a] + 2 * sd[a] for a in range(3)]
        if axis == 3:
            return dict(ret=0, r=r, d=d, u=u, i=voxel, dep=dep, hist=hist)
        up = d[axis] > 0 if d[axis] else sd[axis] > 0
        r[axis] = Q(1 if up else -1)
        face = axis + (3 if up else 0)
        n = nb(voxel, face)
        if n == refl:
            hist.append('reflect')
            d[axis], u[axis] = -d[axis], -u[axis]
            continue
        if n < lo or n > hi:
            hist.append('stop')
            return dict(ret=1, r=r, d=d, u=u, i=8 * voxel + face, dep=dep, hist=hist)
        hist.append('cross')
        voxel = n - lo
        r[axis] = -r[axis]
    return None


def scenarios(n, seed):
    """start, displacement, neighbour kinds: directions with zero components, exact reflections,
    several crossings"""
    rnd = random.Random(seed)
    out = []
    while len(out) < n:
        j = len(out)
        r = [Q(rnd.randrange(-30, 31), 32) for _ in range(3)]
        zero = rnd.choice([(0, 0, 0), (0, 0, 0), (1, 0, 0), (0, 1, 1), (0, 0, 1), (1, 1, 0)])
        scale = rnd.choice([Q(1, 8), Q(1), Q(1), Q(3, 2)])
        d = [Q(0) if z else scale * Q(rnd.choice([-1, 1]) * rnd.randrange(3, 29), 32) for z in zero]
        mode = rnd.choice(['mix', 'mix', 'reflect', 'local', 'stop'])
        out.append((r, d, mode, rnd.randrange(1 << 30)))
    return out


def check(mod, cfg, R, nscen=60):
    f = mod.func('move_p')
    if f is None:
        raise Broken('move_p not found')
    S = mod.structs
    pt, mv, ac, gr = S['particle'], S['particle_mover'], S['accumulator'], S['grid']
    where = f'{f.file}:{f.line}'
    g = Graph()
    sides = []
    refl = proj.enum_const(mod, 'reflect_particles')
    cats = {k: None for k in ('deposit', 'final-state', 'reflection', 'hand-back', 'other')}
    seen = {'reflect': 0, 'cross': 0, 'stop': 0, 'end': 0}
    for r, d, mode, s2 in scenarios(nscen, 7):
        rnd = random.Random(s2)
        m = AModel(g, s2 & 0xffff)
        m.approx = {0: 0.0}
        ab = Abs(mod, m)
        pbase, abase, gp, pm, nbb = (m.rnd.h(801, i) for i in range(5))
        n = rnd.randrange(0, 9)
        nv = 4096
        lo = rnd.choice([0, 50000, 50000, 1 << 33])
        hi = lo + nv - 1
        kinds = {}

        def nb(v, fc):
            k = (v, fc)
            if k not in kinds:
                kind = {'mix': rnd.choice(['l', 'l', 'l', 'r', 'o']), 'reflect': rnd.choice(['r', 'r', 'r', 'l']), 'local': 'l', 'stop': 'o'}[mode]
                kinds[k] = lo + rnd.choice([rnd.randrange(1, nv), rnd.randrange(1, nv), nv - 1, 1]) if kind == 'l' else refl if kind == 'r' else rnd.choice([hi + 1 + rnd.randrange(5000), hi + 1, hi + 2, hi + 1 + (1 << 32), -3, -9] + ([lo - 1, lo - 2, 1] if lo else []))
            return kinds[k]
        start = rnd.randrange(1, nv)
        q, w = Q(rnd.choice([-7, 5, 3]), 4), Q(rnd.randrange(1, 9), 2)
        u = [Q(rnd.randrange(-64, 64) * 2 + 1, 16) for _ in range(3)]
        e = spec(r, d, u, start, nb, lo, hi, refl, q * w)
        if e is None:
            continue
        # ties between faces are left out: which face counts first is not specified
        pa = (pbase + pt.size * n) % P
        for i, a in enumerate(AX):
            m.setf((pa + pt.off('d' + a)) % P, r[i])
            m.setf((pa + pt.off('u' + a)) % P, u[i])
            m.setf((pm + mv.off('disp' + a)) % P, d[i])
        m.setf((pa + pt.off('w')) % P, w)
        m.mem[(pa + pt.off('i')) % P] = start
        m.mem[(pm + mv.off('i')) % P] = n
        for k, v in dict(neighbor=nbb, rangel=lo, rangeh=hi).items():
            m.mem[(gp + gr.off(k)) % P] = v

        def memfn(a):
            o = sgn(a - nbb)
            if 0 <= o < 48 * nv and o % 8 == 0:
                return nb(o // 48, o // 8 % 6) % P
        m.memfn.append(memfn)
        before = {}
        old = dict(m.mem)
        ret = ab.call(f, [pbase, pm, abase, gp, m.real(q)])
        h = '+'.join(e['hist'] + ['end' if not e['ret'] else '']).strip('+')
        tag = f'track {h} (start {tuple(map(str, r))}, displacement {tuple(map(str, d))})'
        for x in e['hist']:
            seen[x] += 1
        seen['end'] += e['ret'] == 0

        def bad(k, msg):
            cats[k] = cats[k] or f'{msg}; {tag}'
        if sgn(ret) != e['ret']:
            bad('hand-back', f'returns {sgn(ret)} instead of {e["ret"]}')
            continue
        exp = {}
        for v, dd in e['dep'].items():
            for i, x in enumerate(dd):
                a = (abase + ac.size * v + 4 * (i % 4) + ac.off(('jx', 'jy', 'jz')[i // 4])) % P
                exp[a] = (m.rnd.h(1, 0, a) + fe(x)) % P, 'deposit', f'quadrant {i % 4} of j{AX[i // 4]}'
        for i, a in enumerate(AX):
            exp[(pa + pt.off('d' + a)) % P] = fe(e['r'][i]), 'final-state', f'position d{a}'
            exp[(pa + pt.off('u' + a)) % P] = fe(e['u'][i]), 'reflection', f'momentum u{a}'
            if e['ret']:
                exp[(pm + mv.off('disp' + a)) % P] = fe(e['d'][i]), 'hand-back', f'remaining displacement {a}'
        exp[(pa + pt.off('w')) % P] = fe(w), 'final-state', 'weight'
        exp[(pa + pt.off('i')) % P] = e['i'] % P, 'hand-back' if e['ret'] else 'final-state', 'voxel index'
        if e['ret']:
            exp[(pm + mv.off('i')) % P] = n, 'hand-back', 'particle index of the mover'
        for a, (v, k, what) in exp.items():
            if m.load(a) != v:
                bad(k, f'{what} is wrong')
        msz = mv.size
        for a, v, ef in ab.log:
            if a in exp:
                continue
            if 0 <= sgn(a - pm) < msz:
                continue          # the used-up displacement of a finished mover is free
            if 0 <= sgn(a - abase) < ac.size * nv or 0 <= sgn(a - pbase) < pt.size * 64 or 0 <= sgn(a - gp) < gr.size or 0 <= sgn(a - nbb) < 48 * nv:
                if m.load(a) != old.get(a, m.rnd.h(1, 0, a)):
                    bad('other', 'something else is changed')
    for k, x in cats.items():
        R('track', k, f'move_p/{cfg}', x is None, where, x or '')
    return seen
