"""Charge continuity of a whole particle step: the ordered value graphs of charge deposit, particle
advance, accumulator reduction and unload and plane synchronisation are composed and the discrete
continuity equation is checked as an identity at every node."""
import random
from fractions import Fraction as Q
import vg, kern, proj
from vg import P, Graph
from kern import sgn
from bndan import inv, AX, CYC, DIRS, bidx, Ports, half
from whole import WM, Whole
from sfan import cells
from absev import Aborted
from proj import Broken


class CM(WM):
    def __init__(self, g, mod, dims, seed, npipe, npart, walls=(), fast=Q(1)):
        E = proj.enum_const(mod, 'symmetric_fields')
        bc = {}
        for d in DIRS:
            ax, lo = half(dims, d)
            if (ax, lo) in walls:
                bc[d] = E
        WM.__init__(self, g, mod, dims, seed, npipe, bc=bc, nworld=1, me=0)
        self.walls = walls
        rnd = random.Random(seed * 7 + 1)
        S = self.S
        r = lambda a=3, b=12, den=8: Q(rnd.randrange(a, b), den)
        dx = [Q(rnd.randrange(6, 12), 8) for _ in range(3)]
        G = lambda k, v: self.setf(self.gp + self.gs.off(k), v)
        for i, a in enumerate(AX):
            G('d' + a, dx[i])
            G('rd' + a, 1 / dx[i])
        G('dV', dx[0] * dx[1] * dx[2])
        G('r8V', 1 / (8 * dx[0] * dx[1] * dx[2]))
        G('cvac', Q(3, 4))
        G('dt', Q(3, 5) * fast)
        G('eps0', Q(7, 8))
        lo = rnd.choice([0, 4000])
        nb = self.rnd.h(840, 1)
        self.mem[(self.gp + self.gs.off('neighbor')) % P] = nb
        self.mem[(self.gp + self.gs.off('rangel')) % P] = lo
        self.mem[(self.gp + self.gs.off('rangeh')) % P] = lo + self.nv - 1
        refl = proj.enum_const(mod, 'reflect_particles')
        for c in cells(self):
            for fc in range(6):
                ax, up = fc % 3, fc >= 3
                p = list(c)
                if (up and p[ax] == dims[ax] or not up and p[ax] == 1) and (ax, not up) in walls:
                    v = refl
                else:
                    p[ax] = (p[ax] - 1 + (1 if up else -1)) % dims[ax] + 1
                    v = lo + self.F.vox(*p)
                self.mem[(nb + 8 * (6 * self.F.vox(*c) + fc)) % P] = v % P
        # species
        st, ps = S['species'], S['particle']
        sp, pb, pm = self.sp, self.pb, self.pm = [self.rnd.h(833, i) for i in (1, 2, 3)]
        for k, v in dict(p=pb, pm=pm, g=self.gp, np=npart, max_np=npart + 8, nm=0, max_nm=64).items():
            self.mem[(sp + st.off(k)) % P] = v
        self.setf(sp + st.off('q'), Q(-3, 4))
        self.setf(sp + st.off('m'), Q(5, 4))
        self.npart = npart
        cs = cells(self)
        for n in range(npart):
            c = rnd.choice(cs)
            b = pb + n * ps.size
            for k in ('dx', 'dy', 'dz'):
                self.setf(b + ps.off(k), Q(rnd.randrange(-31, 32) or 1, 32))
            for k in ('ux', 'uy', 'uz'):
                self.setf(b + ps.off(k), Q(rnd.choice([-1, 1]) * rnd.randrange(1, 60), 16))
            self.setf(b + ps.off('w'), Q(rnd.randrange(1, 9), 2))
            self.mem[(b + ps.off('i')) % P] = self.F.vox(*c)
            self.fty[(b + ps.off('i')) % P] = False
        for c in cells(self):
            b = self.ib + self.I.st.size * self.F.vox(*c)
            for k in ('ex', 'ey', 'ez', 'cbx', 'cby', 'cbz'):
                self.setf(b + self.I.st.off(k), Q(rnd.randrange(-15, 16) or 1, 32))
            for k in ('dexdy', 'dexdz', 'd2exdydz', 'deydz', 'deydx', 'd2eydzdx', 'dezdx', 'dezdy', 'd2ezdxdy', 'dcbxdx', 'dcbydy', 'dcbzdz'):
                self.setf(b + self.I.st.off(k), Q(rnd.randrange(-15, 16) or 1, 128))
        for A in self.A:
            for c in cells(self, True):
                for k in range(12):
                    self.mem[(A.addr('jx', *c) + 4 * k) % P] = 0
                    self.fty[(A.addr('jx', *c) + 4 * k) % P] = True
        for c in cells(self, True):
            for k in ('jfx', 'jfy', 'jfz', 'rhof', 'rhob'):
                self.mem[self.F.addr(k, *c)] = 0
        self.freeze()


def nodes(d):
    return [(x, y, z) for z in range(1, d[2] + 2) for y in range(1, d[1] + 2) for x in range(1, d[0] + 2)]


def step(mod, m, late, stats):
    fn = lambda n: mod.func(n) or (_ for _ in ()).throw(Broken(f'{n} not found'))
    def call(name, args, ports=True):
        po = Ports(m, set(d for d in DIRS if 0 <= m.bc[d]), None, True)
        w = Whole(mod, m, late, lambda ab, pit, callee, a, e: po.stub(ab, pit, callee, a, e))
        w.run(fn(name), args)
        return w
    def charge():
        for c in cells(m, True):
            m.mem[m.F.addr('rhof', *c)] = 0
        call('accumulate_rho_p', [m.fa, m.sp])
        call('synchronize_rho', [m.fa])
        return {n: m.F.get('rhof', *n) for n in nodes(m.dims)}
    r0 = charge()
    call('advance_p', [m.sp, m.aa, m.ia])
    if sgn(m.load(m.sp + m.S['species'].off('nm'))) != 0:
        return 'a mover is left although every neighbour is on this domain'
    call('reduce_accumulator_array', [m.aa])
    call('unload_accumulator_array', [m.fa, m.aa])
    call('synchronize_jf', [m.fa])
    r1 = charge()
    dt = m.G('dt')
    for n in nodes(m.dims):
        div = 0
        for a in range(3):
            k = 'jf' + AX[a]
            hi = list(n)
            lo = list(n)
            lo[a] -= 1
            sg = 1
            if n[a] == 1:
                if (a, True) in m.walls:
                    lo, sg = n, -1
                else:
                    lo[a] = m.dims[a]
            hv = None
            if n[a] == m.dims[a] + 1:
                if (a, False) in m.walls:
                    hv = -m.F.get(k, *lo)
                else:
                    hi[a] = 1
            div += m.G('rd' + AX[a]) * ((m.F.get(k, *hi) if hv is None else hv) - sg * m.F.get(k, *lo))
        if (r1[n] - r0[n] + dt * div) % P:
            stats['wrong'] = n
            return f'node {n}: the charge changes by something else than the current flowing in'
        if (r1[n] - r0[n]) % P:
            stats['moved'] = stats.get('moved', 0) + 1
    return None


PLANS = [((3, 1, 3), 3, 53, (), Q(1)), ((3, 3, 3), 2, 11, (), Q(1)), ((2, 3, 2), 1, 9, (), Q(1)), ((4, 1, 3), 3, 19, (), Q(1)), ((3, 2, 3), 2, 13, ((0, True), (0, False)), Q(1)),
         ((2, 2, 2), 2, 17, tuple((a, b) for a in range(3) for b in (True, False)), Q(1)), ((3, 3, 2), 4, 33, ((2, True), (2, False)), Q(1, 4)),
         ((5, 1, 1), 2, 18, (), Q(1)), ((1, 1, 1), 2, 17, ((1, True), (1, False)), Q(1))]


def check(mod, cfg, R, thorough=False):
    g = Graph()
    bad, moved = None, 0
    plans = [(p, s) for s in range(6 if thorough else 1) for p in PLANS]
    f = mod.func('advance_p')
    if f is None:
        raise Broken('advance_p not found')
    where = f'{f.file}:{f.line}'
    for j, ((dims, npipe, npart, walls, fast), s) in enumerate(plans):
        m = CM(g, mod, dims, 60 + j, npipe, npart, walls, fast)
        st = {}
        try:
            r = step(mod, m, bool(j & 1) and 'omp' not in cfg, st)
        except Aborted as e:
            r = 'stops with an error message'
        moved += st.get('moved', 0)
        if r:
            bad = bad or f'{r} (grid {dims}, {npart} particles, {npipe} pipelines, {"reflecting walls " + str(walls) if walls else "periodic"})'
    if not moved and not bad:
        raise Broken('no charge moved in the scenarios')
    R('continuity', 'continuity', f'step/{cfg}', bad is None, where, bad or '')
    return moved
