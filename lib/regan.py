"""Deck region macros and inline helpers, instantiated by a witness deck (lib/wit/deck.cxx) and evaluated as
ordered value graphs on a simulation built by the repository's constructors; region and equations are
uninterpreted functions of the coordinates."""
import os, itertools
import ckan, vg, proj
from fractions import Fraction as Q
from vg import P, Graph
from kern import sgn
from absev import Aborted
from proj import Broken

WIT = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'wit', 'deck.cxx')
AX = 'xyz'


class RegScene(ckan.Scene):
    def __init__(self, g, mod, cfg, shape, dens=3):
        ckan.Scene.__init__(self, g, mod, cfg, shape)
        self.base, self.dens = self.m.stub, dens
        self.ab.stub = self.stub
        self.pts = {}
        self.asked = 0

    def inn(self, p):
        return 1 if self.m.rnd.h(860, *p) % 5 < self.dens else 0

    def eq(self, k, p):
        return self.m.rnd.h(861, k, *p)

    def stub(self, ab, pit, callee, args, e):
        if callee == 'wit_in':
            self.asked += 1
            return self.inn(tuple(args))
        if callee == 'wit_eq':
            v = self.eq(sgn(args[0]), tuple(args[1:]))
            self.m.approx.setdefault(v, 0.5)
            return v
        return self.base(ab, pit, callee, args, e)

    def gl(self, n):
        return self.m.rnd.h(3, vg.crc(n))

    def setg(self, n, v, o=0, fl=False):
        a = (self.gl(n) + o) % P
        self.m.mem[a], self.m.fty[a] = v % P, fl

    def member(self, n):
        for k in self.mod._raw:
            if k.startswith('_ZN15vpic_simulation') and n in k:
                return self.mod.func(k)
        return ckan.Scene.member(self, n)

    def run(self, hook, case):
        self.setg('wit_case', case)
        f = self.member(hook)
        return self.ab.call(f, [self.vp] + [None] * (len(f.args) - 1))

    def coord(self, a, half):
        """field element of the coordinate origin + spacing * half / 2 along axis a"""
        m, S = self.m, self.mod.structs['grid']
        o, d = (m.load((self.grid + S.off(k)) % P) for k in (AX[a] + '0', 'd' + AX[a]))
        return (o + d * half * pow(2, P - 2, P)) % P


def loc(S, v, off):
    """coordinates of the point of voxel v = (i,j,k) with per axis offset 0 (node plane) or 1 (cell centre) or more half cells"""
    return tuple(S.coord(a, 2 * (v[a] - 1) + off[a]) for a in range(3))


def voxels(d, ghosts=True):
    lo, hi = (0, 2) if ghosts else (1, 1)
    return [(i, j, k) for k in range(lo, d[2] + hi) for j in range(lo, d[1] + hi) for i in range(lo, d[0] + hi)]


# component -> axes along which it is centred in the cell
EDGE = {'ex': (1, 0, 0), 'ey': (0, 1, 0), 'ez': (0, 0, 1)}
FACE = {'cbx': (0, 1, 1), 'cby': (1, 0, 1), 'cbz': (1, 1, 0)}
MAT = {'nmat': (0, 0, 0), 'ematx': (1, 0, 0), 'ematy': (0, 1, 0), 'ematz': (0, 0, 1), 'fmatx': (0, 1, 1), 'fmaty': (1, 0, 1), 'fmatz': (1, 1, 0), 'cmat': (1, 1, 1)}


def around(S, v, off):
    """is the cell centre in the region, for the cells that touch the location"""
    r = []
    for s in itertools.product(*[(1,) if off[a] else (1, -1) for a in range(3)]):
        r.append(S.inn(loc(S, v, s)))
    return r


FN = [(-1, 0, 0), (0, -1, 0), (0, 0, -1), (1, 0, 0), (0, 1, 0), (0, 0, 1)]


def check(mod, cfg, R, dims, what, dens):
    """R(rule, instance, ok, where, msg)"""
    where = 'deck/wrapper.h'
    g = Graph()
    S = RegScene(g, mod, cfg, dict(dims=dims, nsp=1, nmat=3, npipe=1, coll=False, emit=False, bufs=False), dens)
    m, st = S.m, mod.structs
    fs = st['field']
    tag = f'{what}/{"x".join(map(str, dims))}/{cfg}'
    fd = S.L(S.fa, 'field_array', 'f')
    nb = S.L(S.grid, 'grid', 'neighbor')
    sy, sz = dims[0] + 2, (dims[0] + 2) * (dims[1] + 2)
    vox = lambda v: v[0] + sy * v[1] + sz * v[2]
    nx, ny, nz = dims
    cv = S.L(S.grid, 'grid', 'cvac')
    exp = {}
    mid = {}
    for k, a in enumerate(S.mats):
        mid[k] = m.load((a + st['material'].off('id')) % P)
    bcs = []
    a = m.load((S.vp + st['vpic_simulation'].off('particle_bc_list')) % P)
    while a:
        bcs.append((a, sgn(m.load((a + st['particle_bc'].off('id')) % P))))
        a = m.load((a + st['particle_bc'].off('next')) % P)
    case = {'point-field': 1, 'region-field': 2, 'point-material': 3, 'region-material': 4, 'point-bc': 5, 'region-bc': 6, 'volume-emitter': 7, 'surface-emitter': 8}
    base = what.split('-only')[0]
    only = what[len(base):]
    n = case[base]
    name = 'set_region_' + base.split('-')[1] if base.startswith('region') else 'set_point_region_' + base.split('-')[1] if base.startswith('point') else 'define_' + base.replace('-', '_')

    def F(v, k):
        return (fd + fs.size * vox(v) + fs.off(k)) % P
    if base in ('point-field', 'region-field'):
        for v in voxels(dims):
            for j, (k, off) in enumerate(list(EDGE.items()) + list(FACE.items())):
                p = loc(S, v, off)
                on = S.inn(p) if n == 1 else any(around(S, v, off))
                if on:
                    exp[F(v, k)] = (S.eq(j, p) * (cv if k[0] == 'c' else 1) % P, f'{k} at voxel {v}')
    elif base in ('point-material', 'region-material'):
        use = {'': (1, 2), '-only1': (1, None), '-only2': (None, 2)}[only]
        S.setg('wit_m1', S.mats[use[0]] if use[0] is not None else 0)
        S.setg('wit_m2', S.mats[use[1]] if use[1] is not None else 0)
        for v in voxels(dims):
            for k, off in MAT.items():
                if n == 3:
                    if S.inn(loc(S, v, off)):
                        exp[F(v, k)] = (mid[1], f'{k} at voxel {v}')
                else:
                    r = around(S, v, off)
                    val = None
                    if use[1] is not None and any(r) and k != 'cmat':
                        val = mid[2]
                    if use[0] is not None and all(r):
                        val = mid[1]
                    if val is not None:
                        exp[F(v, k)] = (val, f'{k} at voxel {v}')
    elif base in ('point-bc', 'region-bc'):
        use = {'': (1, 1, 1), '-only1': (1, 0, 0), '-only2': (0, 1, 0), '-only3': (0, 0, 1)}[only]
        ids = []
        for j in range(3):
            h, i = bcs[j % len(bcs)]
            builtin = j == 1 and only == ''
            if builtin:
                i = proj.enum_const(mod, 'absorb_particles')
                h = i
            S.setg(f'wit_b{j + 1}', h if use[j] else 0)
            ids.append(i if use[j] else None)
        for v in voxels(dims, False):
            for fc, d in enumerate(FN):
                a = (nb + 8 * (6 * vox(v) + fc)) % P
                val = None
                if n == 5:
                    ax = [abs(x) for x in d].index(1)
                    cs = []
                    for s in itertools.product((0, 2), repeat=3):
                        if s[ax] == (2 if d[ax] > 0 else 0):
                            cs.append(S.inn(loc(S, v, s)))
                    ip, ep = ids[0], ids[1]
                    if ep is not None and any(cs):
                        val = ep
                    if ip is not None and all(cs):
                        val = ip
                else:
                    rc = S.inn(loc(S, v, (1, 1, 1)))
                    rn = S.inn(loc(S, v, tuple(1 + 2 * x for x in d)))
                    vp, ip, ep = ids
                    if vp is not None and rc and rn:
                        val = vp
                    if ip is not None and rc and not rn:
                        val = ip
                    if ep is not None and not rc and rn:
                        val = ep
                if val is not None:
                    exp[a] = (val % P, f'face {d} of voxel {v}')
    else:
        lst = (S.vp + st['vpic_simulation'].off('species_list')) % P
        Rr = m.real
        em = S.call('child_langmuir', S.sps[0], S.ia, S.fa, S.aa, S.ent, 2, Rr(Q(1, 3)), Rr(Q(1, 5)), Rr(Q(1, 7)), Rr(Q(1, 9)))
        S.setg('wit_em', em)
        bid = lambda d: 13 + d[0] + 3 * d[1] + 9 * d[2]
        want = []
        for v in voxels(dims, False):
            rc = S.inn(loc(S, v, (1, 1, 1)))
            if n == 7:
                if rc:
                    want.append((vox(v), bid((0, 0, 0))))
            else:
                for d in FN:
                    if not rc and S.inn(loc(S, v, tuple(1 + 2 * x for x in d))):
                        want.append((vox(v), bid(d)))
    old = dict(m.mem)
    mark = len(S.ab.log)
    try:
        S.run('user_initialization', n)
    except Aborted as ex:
        R('region', tag, False, where, f'{name} stops with an error')
        return
    if n in (7, 8):
        es = st['emitter']
        nc = sgn(m.load((em + es.off('n_component')) % P))
        c = m.load((em + es.off('component')) % P)
        got = [sgn(m.load((c + 4 * j) % P)) for j in range(min(nc, 4096))]
        cid = [v << 5 | b for v, b in want]
        inl = []
        a = m.load((S.vp + st['vpic_simulation'].off('emitter_list')) % P)
        while a:
            inl.append(a)
            a = m.load((a + es.off('next')) % P)
        ok = sorted(got) == sorted(cid) and len(set(got)) == len(got)
        R('emitter', tag, ok, where, f'{name} gives the emitter {len(set(got) & set(cid))} of the {len(cid)} faces or cells of the region and {len(set(got) - set(cid))} others, {len(got)} in all' if not ok else '')
        R('emitter', tag + '/registered', em in inl and not m.issues, where, f'{name} does not register the emitter')
        blk = m.heap.blocks.get(sgn(c), (0,))[0] if nc else 0
        R('emitter', tag + '/size', blk >= 4 * nc, where, f'{name} writes {nc} components into a block of {blk} bytes')
        return
    msg = ''
    for a, (v, t) in exp.items():
        if m.load(a) != v:
            msg = f'{name}: {t} does not get the value that belongs to its location'
            break
    if not msg:
        lo, hi = sgn(fd), sgn(fd) + fs.size * S.nv
        for a, v, e in S.ab.log[mark:]:
            if a in exp:
                continue
            s = sgn(a)
            if (lo <= s < hi or m.block(a) is not None) and m.load(a) != old.get(a, None):
                o = s - lo
                msg = f'{name}: ' + (f'{fs.field_at(o % fs.size)[0]} of voxel index {o // fs.size} is changed although it is not in the region' if lo <= s < hi else 'a value outside the region is changed')
                break
    R('region', tag, not msg, where, msg)
    R('evaluated', tag, S.asked > 0, where, f'{name} never asks for the region')


CASES = ['point-field', 'region-field', 'point-material', 'region-material', 'region-material-only1', 'region-material-only2', 'point-bc', 'point-bc-only1', 'point-bc-only2',
         'region-bc', 'region-bc-only1', 'region-bc-only2', 'region-bc-only3', 'volume-emitter', 'surface-emitter']
