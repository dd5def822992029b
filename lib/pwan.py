"""Whole particle sweeps: the host functions of the particle kernels with all their pipelines as one
ordered value graph, for families of particle numbers, pipeline counts, mover capacities and grids; a
species must fare exactly as its particles one by one (a single particle is handled by the host)."""
import random
from fractions import Fraction as Q
import vg, proj
from vg import P, Graph
from kern import sgn
from bndan import Ports
from whole import Whole
from contan import CM
from absev import Aborted
from proj import Broken

FN = {'energy_p': 'energy', 'center_p': 'particles', 'uncenter_p': 'particles', 'accumulate_hydro_p': 'moments', 'advance_p': 'push'}
PF = ('dx', 'dy', 'dz', 'ux', 'uy', 'uz', 'w')
NA = 13   # kinds of particles


class PM(CM):
    """species of given kinds of particles; faces of the domain lead to another domain"""

    def __init__(self, g, mod, dims, npipe, kinds, max_nm, stay, choice):
        CM.__init__(self, g, mod, dims, 77, npipe, 0)
        S, L = self.S, lambda k: self.load(self.gp + self.gs.off(k))
        nb, hi = L('neighbor'), sgn(L('rangeh'))
        if not stay:
            for x in range(1, dims[0] + 1):
                for y in range(1, dims[1] + 1):
                    for z in range(1, dims[2] + 1):
                        p = (x, y, z)
                        for fc in range(6):
                            ax, up = fc % 3, fc >= 3
                            if p[ax] == (dims[ax] if up else 1):
                                self.mem[(nb + 8 * (6 * self.F.vox(*p) + fc)) % P] = hi + 1 + fc
        st, ps = S['species'], S['particle']
        for k, v in dict(np=len(kinds), max_np=len(kinds) + 8, nm=0, max_nm=max_nm).items():
            self.mem[(self.sp + st.off(k)) % P] = v
        self.kinds = kinds
        for n, a in enumerate(kinds):
            rnd = random.Random(f'{a}/{dims}/{choice.get(a, 0)}')
            b = self.pb + n * ps.size
            c = [rnd.randrange(1, d + 1) for d in dims]
            out = a < 3   # certainly leaves the domain if nothing holds it
            for j, k in enumerate(('dx', 'dy', 'dz')):
                self.setf(b + ps.off(k), Q(rnd.randrange(-31, 32) or 1, 32) if not out or j != a else Q(31, 32))
            for j, k in enumerate(('ux', 'uy', 'uz')):
                self.setf(b + ps.off(k), Q(rnd.choice([-1, 1]) * rnd.randrange(1, 60), 16) if not out or j != a else Q(90 + a))
            if out:
                c[a] = dims[a]
            self.setf(b + ps.off('w'), Q(rnd.randrange(1, 19), 2))
            self.mem[(b + ps.off('i')) % P] = self.F.vox(*c)
            self.fty[(b + ps.off('i')) % P] = False
        if self.Hs:
            for H in self.Hs:
                for z in range(dims[2] + 2):
                    for y in range(dims[1] + 2):
                        for x in range(dims[0] + 2):
                            for k in MOM:
                                self.mem[H.addr(k, x, y, z)] = 0
                                self.fty[H.addr(k, x, y, z)] = True
        self.freeze()

    def part(self, n):
        ps = self.S['particle']
        b = self.pb + n * ps.size
        i = self.load(b + ps.off('i'))
        if self.fty.get((b + ps.off('i')) % P):
            i = self.pit()._bits(i)
        return tuple(self.load(b + ps.off(k)) for k in PF) + (sgn(i),)

    def movers(self):
        mv = self.S['particle_mover']
        nm = sgn(self.load(self.sp + self.S['species'].off('nm')))
        out = []
        for n in range(min(max(nm, 0), 200)):
            b = self.pm + n * mv.size
            i = self.load(b + mv.off('i'))
            if self.fty.get((b + mv.off('i')) % P):
                i = self.pit()._bits(i)
            out.append((sgn(i), tuple(self.load(b + mv.off(k)) for k in ('dispx', 'dispy', 'dispz'))))
        return nm, out


MOM = ('jx', 'jy', 'jz', 'rho', 'px', 'py', 'pz', 'ke', 'txx', 'tyy', 'tzz', 'tyz', 'tzx', 'txy')


def run(mod, g, name, dims, npipe, kinds, late, max_nm, stay, choice):
    m = PM(g, mod, dims, npipe, kinds, max_nm, stay, choice)
    po = Ports(m, set(), None, True)
    w = Whole(mod, m, late, lambda ab, pit, callee, a, e: po.stub(ab, pit, callee, a, e))
    f = mod.func(name)
    if f is None:
        raise Broken(f'{name} not found')
    r = w.run(f, {'advance_p': [m.sp, m.aa, m.ia], 'accumulate_hydro_p': [m.ha, m.sp, m.ia]}.get(name, [m.sp, m.ia]))
    return m, w, r


def blocks(m, arrs, n, sel):
    """sum over the replicated blocks, per cell and entry"""
    out = {}
    for A in arrs:
        for z in range(m.dims[2] + 2):
            for y in range(m.dims[1] + 2):
                for x in range(m.dims[0] + 2):
                    for k in range(n):
                        v = m.load(sel(A, k, x, y, z))
                        if v:
                            out[x, y, z, k] = (out.get((x, y, z, k), 0) + v) % P
    return {k: v for k, v in out.items() if v}


ACC = lambda A, k, x, y, z: A.addr('jx', x, y, z) + 4 * k
HYD = lambda A, k, x, y, z: A.addr(MOM[k], x, y, z)


def plans(name, thorough):
    out = []
    for j, (dims, npipe, np_) in enumerate([((3, 3, 3), 3, 83), ((1, 1, 1), 2, 49), ((3, 2, 2), 1, 37), ((2, 1, 3), 7, 120), ((3, 1, 1), 2, 15), ((2, 2, 2), 5, 16), ((1, 3, 5), 4, 64), ((2, 2, 1), 3, 0), ((3, 1, 3), 17, 70)]):
        out.append((dims, npipe, np_, 'any', 2 * np_ + 64 * npipe, bool(j & 1)))
    if name == 'advance_p':
        # as many movers as there are particles, all of which leave
        for np_ in (16, 19, 32, 1, 15):
            out.append(((2, 2, 2), 1, np_, 'leave', max(np_, 1), False))
        # too few movers
        out.append(((2, 2, 2), 2, 35, 'leave', 8, False))
        out.append(((2, 2, 2), 1, 19, 'leave', 2, True))
    return out


def check(mod, cfg, R, name, thorough=False):
    f = mod.func(name)
    where = f'{f.file}:{f.line}'
    what = FN[name]
    g = Graph()
    single, choice = {}, {}
    bad = None
    lanes = None
    for dims, npipe, np_, kind, max_nm, stay in plans(name, thorough):
        for late in (False, True):
            if late and 'omp' in cfg:
                continue
            rnd = random.Random(f'{dims}/{np_}/{npipe}')
            kinds = [rnd.randrange(3) if kind == 'leave' else rnd.randrange(NA) for _ in range(np_)]
            tag = f'({np_} particles{", all leaving" if kind == "leave" else ""}, {npipe} pipelines, {max_nm} movers, grid {dims}, pipelines {"after" if late else "before"} the host)'
            ch = choice.setdefault((dims, stay), {})
            for a in sorted(set(kinds)):
                if (dims, a, stay) not in single:
                    # a momentum all of whose square roots exist in the field, so that refined
                    # reciprocal roots and exact ones coincide
                    seen = []
                    for ch[a] in [0, 1] + list(range(200)):
                        vg.Pit.ROOTS.clear()
                        s, w1, r1 = run(mod, g, name, dims, 1, [a], False, 64, stay, ch)
                        seen.append(set(vg.Pit.ROOTS))
                        if len(seen) > 2 and not seen[-1] - (seen[0] & seen[1]):
                            break
                    else:
                        raise Broken(f'{name}: no regular sample point')
                    single[dims, a, stay] = (s.part(0), s.movers()[1], r1, blocks(s, s.A, 12, ACC) if what == 'push' else blocks(s, s.Hs, 14, HYD) if what == 'moments' else None)
            try:
                m, w, r = run(mod, g, name, dims, npipe, kinds, late, max_nm, stay, ch)
            except Aborted:
                bad = bad or f'{name} stops with an error in a valid sweep {tag}'
                continue
            one = [single[dims, a, stay] for a in kinds]
            for i in w.issues:
                bad = bad or f'{i} {tag}'
            if what == 'energy':
                if r != sum(o[2] for o in one) % P:
                    bad = bad or f'the energy is not the sum over the particles {tag}'
            if what in ('push', 'moments'):
                want = {}
                for o in one:
                    for k, v in o[3].items():
                        want[k] = (want.get(k, 0) + v) % P
                have = blocks(m, m.A if what == 'push' else m.Hs, 12 if what == 'push' else 14, ACC if what == 'push' else HYD)
                want = {k: v for k, v in want.items() if v}
                if have != want:
                    k = sorted(x for x in set(have) | set(want) if have.get(x) != want.get(x))[0]
                    bad = bad or f'{"current" if what == "push" else "moment"} {k[3]} of cell {k[:3]}, summed over the pipelines, is not the sum over the particles {tag}'
            if what in ('push', 'particles'):
                nm, mv = m.movers()
                wm = sorted((n, o[1][0][1]) for n, o in enumerate(one) if o[1])
                few = max_nm < len(wm)
                for n, o in enumerate(one):
                    h = m.part(n)
                    if h != o[0] and not (few and o[1] and h[:7] == o[0][:7] and h[7] == o[0][7] >> 3):
                        bad = bad or f'particle {n} does not fare as it does alone {tag}'
                        break
                if what == 'push':
                    if few:
                        if nm > max_nm or len({x[0] for x in mv}) != len(mv) or not set(mv) <= set(wm):
                            bad = bad or f'the movers recorded in a short mover array are not distinct movers of the species {tag}'
                    elif nm != len(wm) or sorted(mv) != wm:
                        bad = bad or f'{nm} movers are recorded, not the {len(wm)} of the particles that leave {tag}'
    R('whole', 'whole-species', f'{name}/{cfg}', bad is None, where, bad or '')


def run_all(ctx, cfgs, names=FN):
    from bndan import run_tasks
    mods = {c: ctx.mod(c, norm=proj.NORMV) for c in cfgs}

    def one(t):
        res = []
        check(mods[t[1]], t[1], lambda cat, *a: res.append(a), t[0], ctx.thorough)
        return res
    for n in names:
        ctx.saw(n)
    run_tasks(ctx, [(n, c) for n in names for c in cfgs], one)
    ctx.floor('whole-species', len(names) * len(cfgs))
