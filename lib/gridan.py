"""Domain decomposition: the grids of all ranks, evaluated as ordered value graphs and compared with
(and against each other through) a declarative description of the decomposition."""
import vg, kern, proj
from vg import P, Graph
from kern import sgn
from bndan import inv, AX, DIRS, bidx, half
from absev import AModel, Abs, Aborted
from whole import Heap
from proj import Broken


class GM(AModel):
    def __init__(self, g, mod, seed, nworld, rank, nvs=None):
        AModel.__init__(self, g, seed)
        self.approx = {0: 0.0}
        self.fty = {}
        self.mod, self.S, self.gs = mod, mod.structs, mod.structs['grid']
        self.gp = self.rnd.h(801, 0)
        self.nworld, self.rank, self.nvs = nworld, rank, nvs
        for n, v in (('_world_size', nworld), ('_world_rank', rank)):
            self.mem[self.rnd.h(3, vg.crc(n))] = v
        for k in ('range', 'neighbor'):
            self.mem[(self.gp + self.gs.off(k)) % P] = 0
        self.heap = Heap(self)

    def stub(self, ab, pit, callee, args, e):
        r = self.heap.stub(ab, pit, callee, args, e)
        if r is not NotImplemented:
            return r
        nm = callee if isinstance(callee, str) else ''
        if 'mp_allgather_i64' in nm:
            own = sgn(self.load(args[0]))
            nv = list(self.nvs) if self.nvs else [own] * self.nworld
            nv[self.rank] = own
            for i, v in enumerate(nv):
                ab.put(pit, args[1] + 8 * i, v, 'i64', e)
            return 0
        if 'mp_' in nm:
            raise Broken(f'unexpected communication {nm}')
        return NotImplemented

    def G(self, k, o=0):
        return self.load(self.gp + self.gs.off(k) + o)

    def nb(self, v, f):
        return sgn(self.load(self.G('neighbor') + 8 * (6 * v + f)))

    def rng(self, i):
        return sgn(self.load(self.G('range') + 8 * i))


def vox(n, x, y, z):
    return x + (n[0] + 2) * (y + (n[1] + 2) * z)


CONF = [((4, 3, 2), (1, 1, 1)), ((6, 4, 2), (2, 1, 1)), ((6, 6, 4), (3, 2, 2)), ((4, 9, 1), (2, 3, 1)), ((1, 8, 3), (1, 4, 1)), ((2, 2, 2), (2, 2, 2)), ((5, 1, 6), (1, 1, 3)), ((140, 1, 2), (2, 1, 1)), ((2, 70, 1), (1, 1, 1)), ((1, 2, 70), (1, 2, 1))]
MORE = [((8, 6, 4), (4, 3, 2)), ((1, 1, 12), (1, 1, 6)), ((10, 2, 2), (5, 2, 1)), ((3, 9, 2), (3, 3, 1))]


def box(mod, cfg, R, kind, thorough=False):
    f = mod.func(f'partition_{kind}_box')
    if f is None:
        raise Broken(f'partition_{kind}_box not found')
    where = f'{f.file}:{f.line}'
    E = {k: proj.enum_const(mod, k) for k in ('anti_symmetric_fields', 'pec_fields', 'absorb_fields', 'reflect_particles', 'absorb_particles')}
    bad = dict.fromkeys(('geometry', 'domains', 'face', 'neighbour', 'reciprocity', 'memory', 'rejects'))

    def note(k, s):
        bad[k] = bad[k] or s
    g = Graph()
    for j, (gn, gpn) in enumerate(CONF + (MORE if thorough else [])):
        nw = gpn[0] * gpn[1] * gpn[2]
        loc = [gn[i] // gpn[i] for i in range(3)]
        pbc = -7
        ms = []
        gx = None
        for rank in range(nw):
            m = GM(g, mod, 5, nw, rank)
            gx = [m.rnd.h(860, i) for i in range(6)]
            args = [m.gp] + gx + list(gn) + list(gpn) + ([pbc % P] if kind == 'absorbing' else [])
            ab = Abs(mod, m, m.stub, 1 << 14)
            try:
                ab.call(f, args)
            except Aborted:
                note('rejects', f'a valid decomposition {gn} over {gpn} is rejected')
                break
            o = m.heap.overrun(ab.log)
            if o:
                note('memory', o[0])
            m.log = ab.log
            ms.append(m)
        if len(ms) < nw:
            continue
        tag = f'(box {gn} over {gpn} ranks)'
        for rank, m in enumerate(ms):
            pi = (rank % gpn[0], rank // gpn[0] % gpn[1], rank // (gpn[0] * gpn[1]))
            d = [(gx[3 + i] - gx[i]) * inv(gn[i]) % P for i in range(3)]
            for i, a in enumerate(AX):
                for k, v in (('d' + a, d[i]), ('rd' + a, inv(d[i])), (a + '0', (gx[i] + (gx[3 + i] - gx[i]) * pi[i] * inv(gpn[i])) % P), (a + '1', (gx[i] + (gx[3 + i] - gx[i]) * (pi[i] + 1) * inv(gpn[i])) % P)):
                    if m.G(k) != v:
                        note('geometry', f'{k} of rank {rank} is wrong {tag}')
                if sgn(m.G('n' + a)) != loc[i]:
                    note('domains', f'n{a} of rank {rank} is {sgn(m.G("n" + a))} instead of {loc[i]} {tag}')
            dv = d[0] * d[1] * d[2] % P
            if m.G('dV') != dv or m.G('r8V') != inv(8 * dv):
                note('geometry', f'cell volume of rank {rank} is wrong {tag}')
            n = loc
            nv = (n[0] + 2) * (n[1] + 2) * (n[2] + 2)
            if [sgn(m.G(k)) for k in ('sx', 'sy', 'sz', 'nv')] != [1, n[0] + 2, (n[0] + 2) * (n[1] + 2), nv]:
                note('domains', f'voxel strides of rank {rank} are wrong {tag}')
            if [m.rng(i) for i in range(nw + 1)] != [nv * i for i in range(nw + 1)] or sgn(m.G('rangel')) != nv * rank or sgn(m.G('rangeh')) != nv * (rank + 1) - 1:
                note('domains', f'global voxel ranges of rank {rank} are wrong {tag}')
            nbr = {}
            for dd in DIRS:
                ax, lo = half(n, dd)
                q = list(pi)
                q[ax] += -1 if lo else 1
                wall = kind != 'periodic' and gn[ax] > 1 and not 0 <= q[ax] < gpn[ax]
                q[ax] %= gpn[ax]
                r = q[0] + gpn[0] * (q[1] + gpn[1] * q[2])
                nbr[dd] = None if wall else r
                want = r if not wall else E['absorb_fields'] if kind == 'absorbing' else E['anti_symmetric_fields']
                have = sgn(m.G('bc', 4 * bidx(dd)))
                if have != want:
                    note('face', f'rank {rank}: face {dd} has field condition {have} instead of {want} {tag}')
            if sgn(m.G('bc', 4 * 13)) != rank:
                note('face', f'rank {rank}: the centre entry of the boundary table is not the own rank')
            for z in range(n[2] + 2):
                for y in range(n[1] + 2):
                    for x in range(n[0] + 2):
                        c = (x, y, z)
                        ghost = any(c[i] in (0, n[i] + 1) for i in range(3))
                        for dd in DIRS:
                            ax, lo = half(n, dd)
                            fc = ax + (0 if lo else 3)
                            t = list(c)
                            t[ax] += -1 if lo else 1
                            if ghost:
                                want = E['reflect_particles']
                            elif 1 <= t[ax] <= n[ax]:
                                want = nv * rank + vox(n, *t)
                            elif nbr[dd] is None:
                                want = pbc if kind == 'absorbing' else E['reflect_particles']
                            else:
                                t[ax] = n[ax] if lo else 1
                                want = nv * nbr[dd] + vox(n, *t)
                            have = m.nb(vox(n, *c), fc)
                            if have != want:
                                note('neighbour', f'rank {rank}: neighbour of cell {c} across face {dd} is {have} instead of {want} {tag}')
        # mutual consistency, independent of the table above
        for rank, m in enumerate(ms):
            nv = m.rng(rank + 1) - m.rng(rank)
            for v in range(nv):
                for fc in range(6):
                    t = m.nb(v, fc)
                    if t < 0:
                        continue
                    r2 = next((r for r in range(nw) if m.rng(r) <= t < m.rng(r + 1)), None)
                    if r2 is None or ms[r2].nb(t - m.rng(r2), (fc + 3) % 6) != m.rng(rank) + v:
                        note('reciprocity', f'cell {v} of rank {rank} has neighbour {t} across face {fc}, which does not lead back {tag}')
            for dd in DIRS:
                r2 = sgn(m.G('bc', 4 * bidx(dd)))
                if 0 <= r2 < nw and sgn(ms[r2].G('bc', 4 * bidx(tuple(-q for q in dd)))) != rank:
                    note('reciprocity', f'rank {rank} exchanges through face {dd} with rank {r2}, which does not through the opposite face {tag}')
    for gn, gpn, nw in (((5, 4, 2), (2, 1, 1), 2), ((4, 4, 2), (2, 1, 1), 3), ((4, 4, 4), (1, 2, 2), 2), ((4, 3, 4), (1, 2, 1), 2), ((4, 4, 3), (1, 1, 2), 2), ((0, 4, 4), (1, 1, 1), 1), ((4, 4, 4), (-1, -1, 1), 1)):
        m = GM(g, mod, 5, nw, 0)
        ab = Abs(mod, m, m.stub, 1 << 14)
        try:
            ab.call(f, [m.gp] + [m.rnd.h(860, i) for i in range(6)] + [x % P for x in gn] + [x % P for x in gpn] + ([-7 % P] if kind == 'absorbing' else []))
            note('rejects', f'the impossible decomposition {gn} over {gpn} on {nw} ranks is accepted')
        except Aborted:
            pass
    for k, b in bad.items():
        R('grid', k, f'partition_{kind}_box/{cfg}', b is None, where, b or '')


def ops(mod, cfg, R, thorough=False):
    """join_grid between domains of different extent, set_fbc, set_pbc: every face"""
    fj, fs, ff, fp = (mod.func(k) for k in ('join_grid', 'size_grid', 'set_fbc', 'set_pbc'))
    if None in (fj, fs, ff, fp):
        raise Broken('grid functions not found')
    bad = dict.fromkeys(('join_grid', 'set_fbc', 'set_pbc', 'size_grid', 'rejects'))

    def note(k, s):
        bad[k] = bad[k] or s
    E = {k: proj.enum_const(mod, k) for k in ('anti_symmetric_fields', 'symmetric_fields', 'pmc_fields', 'absorb_fields')}
    g = Graph()
    n = (3, 2, 4)

    def fresh(nvs=None):
        m = GM(g, mod, 6, 3, 1, nvs)  # noqa
        ab = Abs(mod, m, m.stub, 1 << 14)
        ab.call(fs, [m.gp] + list(n))
        snap = {a: m.mem[a] for a in m.mem}
        ab.log.clear()
        return m, ab, snap
    pec, refl = proj.enum_const(mod, 'pec_fields'), proj.enum_const(mod, 'reflect_particles')
    for n in ((3, 2, 4), (140, 1, 1), (1, 70, 2), (2, 1, 70), (1, 1, 1)):
        nv = (n[0] + 2) * (n[1] + 2) * (n[2] + 2)
        m, ab, snap = fresh([nv + 3, nv, 11, nv + 1, 5, 6][:3])
        st = {'nx': n[0], 'ny': n[1], 'nz': n[2], 'nv': nv, 'sx': 1, 'sy': n[0] + 2, 'sz': (n[0] + 2) * (n[1] + 2), 'rangel': nv + 3, 'rangeh': 2 * nv + 2}
        for k, v in st.items():
            if sgn(m.G(k)) != v:
                note('size_grid', f'{k} of a {n} grid is {sgn(m.G(k))} instead of {v}')
        if [m.rng(i) for i in range(4)] != [0, nv + 3, 2 * nv + 3, 2 * nv + 14]:
            note('size_grid', f'global cell ranges {[m.rng(i) for i in range(4)]} for local sizes {[nv + 3, nv, 11]}')
        for i in range(27):
            w = 1 if i == 13 else pec
            if sgn(m.G('bc', 4 * i)) != w:
                note('size_grid', f'boundary code {i} starts as {sgn(m.G("bc", 4 * i))} instead of {w}')
        for z in range(n[2] + 2):
            for y in range(n[1] + 2):
                for x in range(n[0] + 2):
                    c = (x, y, z)
                    ghost = any(c[a] in (0, n[a] + 1) for a in range(3))
                    for fce in range(6):
                        a, up = fce % 3, fce > 2
                        t = list(c)
                        t[a] += 1 if up else -1
                        w = refl if ghost or c[a] == (n[a] if up else 1) else nv + 3 + vox(n, *t)
                        if m.nb(vox(n, *c), fce) != w:
                            note('size_grid', f'neighbour of cell {c} across face {fce} of a {n} grid is {m.nb(vox(n, *c), fce)} instead of {w}')
    n = (3, 2, 4)
    for dd in DIRS:
        ax, lo = half(n, dd)
        fc = ax + (0 if lo else 3)
        face = [c for c in ((x, y, z) for z in range(1, n[2] + 1) for y in range(1, n[1] + 1) for x in range(1, n[0] + 1)) if c[ax] == (1 if lo else n[ax])]
        for rn in (n[ax], 7, 1):
            o = list(n)
            o[ax] = rn
            onv = (o[0] + 2) * (o[1] + 2) * (o[2] + 2)
            m, ab, snap = fresh([onv, 0, 13])
            nbb = m.G('neighbor')
            ab.call(fj, [m.gp, bidx(dd), 0])
            want = {(m.gp + m.gs.off('bc') + 4 * bidx(dd)) % P: 0}
            for c in face:
                t = list(c)
                t[ax] = rn if lo else 1
                want[(nbb + 8 * (6 * vox(n, *c) + fc)) % P] = m.rng(0) + vox(o, *t)
            cmp(m, ab, want, snap, nbb, lambda s: note('join_grid', f'face {dd}: {s}'))
        m, ab, snap = fresh([(n[0] + 2) * (n[1] + 2) * (n[2] + 2) + 1, 0, 13])
        try:
            ab.call(fj, [m.gp, bidx(dd), 0])
            note('rejects', f'an incompatible neighbour domain is accepted at face {dd}')
        except Aborted:
            pass
        for k, v in E.items():
            m, ab, snap = fresh()
            ab.call(ff, [m.gp, bidx(dd), v % P])
            cmp(m, ab, {(m.gp + m.gs.off('bc') + 4 * bidx(dd)) % P: v % P}, snap, m.G('neighbor'), lambda s: note('set_fbc', f'face {dd}: {s}'))
        m, ab, snap = fresh()
        nbb = m.G('neighbor')
        ab.call(fp, [m.gp, bidx(dd), -9 % P])
        cmp(m, ab, {(nbb + 8 * (6 * vox(n, *c) + fc)) % P: -9 % P for c in face}, snap, nbb, lambda s: note('set_pbc', f'face {dd}: {s}'))
    for f, args in ((fj, [13, 0]), (fj, [27, 0]), (fj, [-1, 0]), (fj, [4, 3]), (fj, [4, -1]), (ff, [13, E['pmc_fields']]), (ff, [4, 0]), (ff, [4, -77]), (fp, [4, 0]), (fp, [13, -3]), (fp, [99, -3])):
        m, ab, snap = fresh()
        try:
            ab.call(f, [m.gp] + [x % P for x in args])
            note('rejects', f'{f.dname} accepts bad arguments {args}')
        except Aborted:
            pass
    for k, b in bad.items():
        f = mod.func(k) or fs
        R('grid', 'grid-op', f'{k}/{cfg}', b is None, f'{f.file}:{f.line}', b or '')


def cmp(m, ab, want, snap, nbb, note):
    nvb = 48 * sgn(m.G('nv'))
    touched = set(a for a, v, e in ab.log)
    for a in touched | set(want):
        w = want.get(a, snap.get(a))
        inn = 0 <= sgn(a - nbb) < nvb
        ing = 0 <= sgn(a - m.gp) < m.gs.size
        if not inn and not ing and a not in want:
            continue
        h = m.mem.get(a)
        if h is None or w is None or sgn(h) != sgn(w):
            what = f'neighbour entry of voxel {sgn(a - nbb) // 48}, face {sgn(a - nbb) // 8 % 6}' if inn else f'boundary table entry / grid datum at {sgn(a - m.gp)}'
            note(f'{what} is {None if h is None else sgn(h)} instead of {None if w is None else sgn(w)}')
            return
