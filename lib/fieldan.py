"""Field-solver sweeps: interior pipelines + host exteriors against the Yee-scheme
specification, in the value-graph small model."""
from fractions import Fraction
import vg, kern, proj
from vg import P, Graph, Build, Pit, walk
from kern import Model, Field, Host, Pipe, Cursor, stores, domain, sgn
from proj import Broken

inv = lambda a: pow(a, P - 2, P)
fr = lambda a, b=1: a * inv(b) % P

EDGE = {'x': (0, 1, 1), 'y': (1, 0, 1), 'z': (1, 1, 0)}
FACE = {'x': (1, 0, 0), 'y': (0, 1, 0), 'z': (0, 0, 1)}


def box(dims, ext, lo=1):
    return [(x, y, z) for z in range(lo, dims[2] + ext[2] + 1) for y in range(lo, dims[1] + ext[1] + 1) for x in range(lo, dims[0] + ext[0] + 1)]


def owned_ext(c):
    if c in ('ex', 'tcax', 'jfx', 'ematx'):
        return EDGE['x']
    if c in ('ey', 'tcay', 'jfy', 'ematy'):
        return EDGE['y']
    if c in ('ez', 'tcaz', 'jfz', 'ematz'):
        return EDGE['z']
    if c in ('cbx', 'fmatx'):
        return FACE['x']
    if c in ('cby', 'fmaty'):
        return FACE['y']
    if c in ('cbz', 'fmatz'):
        return FACE['z']
    if c in ('rhof', 'rhob', 'div_e_err', 'nmat'):
        return (1, 1, 1)
    if c in ('div_b_err', 'cmat'):
        return (0, 0, 0)
    return None


class FM(Model):
    """small model of a field array"""

    def __init__(self, g, seed, mod, fa_node, dims):
        Model.__init__(self, g, seed)
        p = Pit(g, seed)
        self.dims = dims
        S = mod.structs
        fs, gs = S['field_array'], S['grid']
        self.gs = gs
        self.S = S
        self.fa = p.ev(fa_node)
        self.gp = p.h(901, 1)
        self.fb = p.h(901, 2)
        self.pp = p.h(901, 3)
        self.mp_ = p.h(901, 4)
        self.mem[(self.fa + fs.off('g')) % P] = self.gp
        self.mem[(self.fa + fs.off('f')) % P] = self.fb
        self.mem[(self.fa + fs.off('params')) % P] = self.pp
        self.mem[(self.pp + S['sfa_params'].off('mc')) % P] = self.mp_
        nx, ny, nz = dims
        for k, v in dict(nx=nx, ny=ny, nz=nz, sx=1, sy=nx + 2, sz=(nx + 2) * (ny + 2), nv=(nx + 2) * (ny + 2) * (nz + 2)).items():
            self.mem[(self.gp + gs.off(k)) % P] = v
        self.f = Field(self, self.fb, S['field'], dims)
        self.mc = S['material_coefficient']

    def G(self, k):
        return self.load(self.gp + self.gs.off(k))

    def rd(self, ax):
        i = 'xyz'.index(ax)
        return self.G('rd' + ax) if self.dims[i] > 1 else 0

    def F(self, c, p):
        return self.f.get(c, *p)

    def mat(self, coef, which, p):
        """material coefficient at the material of element `which` at voxel p (which None: vacuum)"""
        i = self.f.get(which, *p) if which else 0
        return self.load(self.mp_ + self.mc.size * i + self.mc.off(coef))

    def damp(self):
        return self.load(self.pp + self.S['sfa_params'].off('damp'))


NEXT = {'x': 'y', 'y': 'z', 'z': 'x'}
UNIT = {'x': (1, 0, 0), 'y': (0, 1, 0), 'z': (0, 0, 1)}


def sh(p, ax, s):
    return tuple(a + s * b for a, b in zip(p, UNIT[ax]))


# --- specifications: component -> (extent of the owned box beyond n, formula(M, pos, host scalars)) ---
def spec_advance_b(vac):
    out = {}
    for a in 'xyz':
        b, c = NEXT[a], NEXT[NEXT[a]]
        def fml(M, p, H, a=a, b=b, c=c):
            k = M.load_frac() * M.G('cvac') % P * M.G('dt') % P
            return (M.F('cb' + a, p) - k * M.rd(b) * (M.F('e' + c, sh(p, b, 1)) - M.F('e' + c, p)) + k * M.rd(c) * (M.F('e' + b, sh(p, c, 1)) - M.F('e' + b, p))) % P
        out['cb' + a] = (FACE[a], fml)
    return out


def spec_clean_div_b(vac):
    out = {}
    for a in 'xyz':
        def fml(M, p, H, a=a):
            al = fr(7, 18) * inv(sum(M.rd(q) * M.rd(q) for q in 'xyz')) % P
            return (M.F('cb' + a, p) + al * M.rd(a) * (M.F('div_b_err', p) - M.F('div_b_err', sh(p, a, -1)))) % P
        out['cb' + a] = (FACE[a], fml)
    return out


def curl_h(M, p, a, vac):
    b, c = NEXT[a], NEXT[NEXT[a]]
    def H(comp, q):
        return M.F('cb' + comp, q) * M.mat('rmu' + comp, None if vac else 'fmat' + comp, q)
    k = M.G('cvac') * M.G('dt') % P
    return (k * M.rd(b) * (H(c, p) - H(c, sh(p, b, -1))) - k * M.rd(c) * (H(b, p) - H(b, sh(p, c, -1)))) % P


def spec_curl_b(vac):
    return {'tca' + a: (EDGE[a], lambda M, p, H, a=a: curl_h(M, p, a, vac)) for a in 'xyz'}


def spec_advance_e(vac):
    out = {}
    for a in 'xyz':
        def tca(M, p, H, a=a):
            d = M.damp()
            return ((1 + d) * curl_h(M, p, a, vac) - d * M.F('tca' + a, p)) % P
        def e(M, p, H, a=a, tca=tca):
            mt = None if vac else 'emat' + a
            return (M.mat('decay' + a, mt, p) * M.F('e' + a, p) + M.mat('drive' + a, mt, p) * (tca(M, p, H) - M.G('dt') * inv(M.G('eps0')) * M.F('jf' + a, p))) % P
        out['tca' + a] = (EDGE[a], tca)
        out['e' + a] = (EDGE[a], e)
    return out


def spec_clean_div_e(vac):
    out = {}
    for a in 'xyz':
        def fml(M, p, H, a=a):
            al = fr(7, 18) * inv(sum(M.rd(q) * M.rd(q) for q in 'xyz')) % P
            return (M.F('e' + a, p) + M.mat('drive' + a, None if vac else 'emat' + a, p) * al % P * M.rd(a) * (M.F('div_e_err', sh(p, a, 1)) - M.F('div_e_err', p))) % P
        out['e' + a] = (EDGE[a], fml)
    return out


def div_d(M, p, vac):
    t = 0
    for a in 'xyz':
        def D(q):
            return M.mat('eps' + a, None if vac else 'emat' + a, q) * M.F('e' + a, q)
        t += M.rd(a) * (D(p) - D(sh(p, a, -1)))
    return t % P


def spec_div_e_err(vac):
    def fml(M, p, H):
        return M.mat('nonconductive', None if vac else 'nmat', p) * (div_d(M, p, vac) - inv(M.G('eps0')) * (M.F('rhof', p) + M.F('rhob', p))) % P
    return {'div_e_err': ((1, 1, 1), fml)}


def spec_rhob(vac):
    def fml(M, p, H):
        return M.mat('nonconductive', None if vac else 'nmat', p) * (M.G('eps0') * div_d(M, p, vac) - M.F('rhof', p)) % P
    return {'rhob': ((1, 1, 1), fml)}


def spec_div_b_err(vac):
    def fml(M, p, H):
        return sum(M.rd(a) * (M.F('cb' + a, sh(p, a, 1)) - M.F('cb' + a, p)) for a in 'xyz') % P
    return {'div_b_err': ((0, 0, 0), fml)}


# host, spec, vacuum?, ghost exchange, boundary adjustment
KERNELS = [
    ('advance_b', spec_advance_b, False, None, 'local_adjust_norm_b'),
    ('clean_div_b', spec_clean_div_b, False, 'div_b', 'local_adjust_norm_b'),
    ('compute_div_b_err', spec_div_b_err, False, None, None),
    ('advance_e', spec_advance_e, False, 'tang_b', 'local_adjust_tang_e'),
    ('vacuum_advance_e', spec_advance_e, True, 'tang_b', 'local_adjust_tang_e'),
    ('compute_curl_b', spec_curl_b, False, 'tang_b', 'local_adjust_tang_e'),
    ('vacuum_compute_curl_b', spec_curl_b, True, 'tang_b', 'local_adjust_tang_e'),
    ('clean_div_e', spec_clean_div_e, False, None, 'local_adjust_tang_e'),
    ('vacuum_clean_div_e', spec_clean_div_e, True, None, 'local_adjust_tang_e'),
    ('compute_div_e_err', spec_div_e_err, False, 'norm_e', 'local_adjust_div_e'),
    ('vacuum_compute_div_e_err', spec_div_e_err, True, 'norm_e', 'local_adjust_div_e'),
    ('compute_rhob', spec_rhob, False, 'norm_e', 'local_adjust_rhob'),
    ('vacuum_compute_rhob', spec_rhob, True, 'norm_e', 'local_adjust_rhob'),
]


def width_of(fname):
    import re
    m = re.search(r'_v(\d+)(P|$|E)', fname)
    m = re.search(r'_pipeline_v(\d+?)(?=\D)', fname + ' ')
    return int(m.group(1)) if m else 1


class Sweep:
    """one host function in one configuration"""

    def __init__(self, mod, name, fa_arg=0, g=None):
        self.mod = mod
        self.name = name
        self.g = g or Graph()
        f = mod.func(name + '_pipeline')
        if f is None:
            f = mod.func(name)
        if f is None:
            raise Broken(f'sweep host {name} not found')
        self.f = f
        g = self.g
        self.host = Host(g, mod, f)
        self.fa = g.ptr(g.mk('arg', (self.host.b.tag, fa_arg)))
        self.host_args = [g.mk('arg', (self.host.b.tag, i)) for i in range(len(f.args))]
        if len(self.host.disp) != 1:
            raise Broken(f'{name}: expected one pipeline dispatch, found {len(self.host.disp)}')
        self.d = self.host.disp[0]
        self.scalar_name = base_scalar(mod, self.d)
        self.ps = Pipe(g, mod, self.scalar_name, self.host, self.d)
        self.W = width_of(self.d.fn)
        self.cs = self._cursor(self.ps, 1, None)
        self.pv = self.cv = None
        if self.d.fn != self.scalar_name:
            self.pv = Pipe(g, mod, self.d.fn, self.host, self.d)
            self.cv = self._cursor(self.pv, self.W, self.cs)

    def _cursor(self, pipe, W, sc):
        ls = pipe.main()
        if len(ls) != 1:
            raise Broken(f'{pipe.f.dname}: expected one work loop, found {len(ls)}')
        return Cursor(pipe, ls[0], W, self.model, scalar=sc)

    def model(self, dims, seed=7):
        M = FM(self.g, seed, self.mod, self.fa, dims)
        fn = self.host_args
        M.load_frac = lambda: Pit(self.g, seed).ev(fn[1])
        return M

    def loc(self, e=None):
        if e is not None and e.ins is not None:
            return self.f.loc(e.ins)
        return f'{self.f.file}:{self.f.line}'


def base_scalar(mod, d):
    """the scalar pipeline that handles the stragglers: called directly, or the dispatched one"""
    if d.scalar is not None:
        return d.scalar.callee
    return d.fn


def ploc(pipe, e):
    return pipe.f.loc(e.ins) if e is not None and e.ins else f'{pipe.f.file}:{pipe.f.line}'


_ws = {}


def write_set(mod, g, M, e):
    """addresses a called helper may write in the field array (guards ignored)"""
    f = mod.func(e.callee)
    if f is None:
        return set()
    b = Build(g, f, args={i: a for i, a in enumerate(e.args) if a is not None}, tag=('ws', f.name))
    out = set()
    rec_ws(M.pit(), b.effects, out)
    return out


def rec_ws(pit, effects, out):
    for e in effects:
        if e.kind == 'store':
            out.add(pit.ev(e.addr))
        elif e.kind == 'loop':
            L = e.loop
            t = pit.small(pit.ev(L.trips)) if L.trips is not None else None
            if t is None or kern.unsolved(L):
                raise Broken('helper loop without recovered domain')
            for k in range(max(0, t)):
                rec_ws(pit.child(kern.loop_env(pit, L, k)), L.effects, out)


def run_sweep(S, spec, vac, ghost, adjust, R, sizes=None, cfg=''):
    """R(category, rule, instance, ok, where, msg)"""
    sizes = sizes or (kern.MED + kern.TINY + kern.LONG)
    g, mod, name = S.g, S.mod, S.name
    tag = f'{name}/{cfg}' if cfg else name
    cs = S.cs
    pw = f'{S.ps.f.file}:{S.ps.f.line}'
    # --- work distribution ----------------------------------------------
    iss = S.host.exec_issue(S.d)
    R('dist', 'straggler-call', tag, iss is None, S.loc(), iss or '')
    if iss:
        R('cover', 'exactly-once', tag, False, S.loc(), iss)

    def lost(who, vec, w, why):
        R('cover', 'exactly-once', tag, False, w, why)
        if vec:
            R('vector', 'lanes-equal-scalar', tag, False, w, why)
        R('undecided', 'race', tag, True, w, why)
    for c, who in ((cs, S.ps), (S.cv, S.pv)):
        if c is None:
            continue
        w = f'{who.f.file}:{who.f.line}'
        R('dist', 'partition', f'{who.f.dname}/{cfg}', c.ok, w, '; '.join(m for r, m in c.issues) if not c.ok else '')
        if not c.ok:
            lost(who, c is not cs, w, '; '.join(m for r, m in c.issues))
            return
        good = all(c.verify_step(d) for d in sizes)
        R('dist', 'cursor-step', f'{who.f.dname}/{cfg}', good, w, '; '.join(m for r, m in c.issues[:2]))
        if not good:
            lost(who, c is not cs, w, '; '.join(m for r, m in c.issues[:2]))
            return
    if S.cv is not None:
        same = S.cv.offs == cs.offs and S.cv.lo == cs.lo
        R('dist', 'vector-range', f'{S.pv.f.dname}/{cfg}', same, f'{S.pv.f.file}:{S.pv.f.line}', f'vector pipeline sweeps box {S.cv.box((9, 7, 5))}, scalar straggler sweeps {cs.box((9, 7, 5))} for a 9x7x5 grid')
        if not same:
            lost(S.pv, True, f'{S.pv.f.file}:{S.pv.f.line}', f'vector pipeline sweeps box {S.cv.box((9, 7, 5))}, scalar straggler sweeps {cs.box((9, 7, 5))} for a 9x7x5 grid')
            return
    # --- call protocol ---------------------------------------------------
    order = []
    for i, (k, e, d) in enumerate(S.host.timeline):
        order.append((k, e))
    idx = {}
    for i, (k, e) in enumerate(order):
        if k == 'call':
            idx.setdefault(kern.base_of(e.callee), i)
        elif k in ('dispatch', 'wait'):
            idx.setdefault(k, i)
    nw = 'wait' in idx and idx['wait'] > idx['dispatch']
    R('proto', 'waits', tag, nw, S.loc(), 'dispatched pipelines are not waited for before the function returns')
    if not nw:
        return
    i_end = -1
    if ghost:
        nb, nl, ne = f'begin_remote_ghost_{ghost}', f'local_ghost_{ghost}', f'end_remote_ghost_{ghost}'
        ok = all(q in idx for q in (nb, nl, ne)) and idx[nb] < idx[ne]
        R('ghost', 'exchange-present', tag, ok, S.loc(), f'needs {nb}, {nl}, {ne} in that order; found {[q for q in (nb, nl, ne) if q in idx]}')
        if not ok:
            return
        i_end = max(idx[ne], idx[nl])
    if adjust:
        ok = adjust in idx
        R('proto', 'boundary-adjust', tag, ok, S.loc(), f'{adjust} is not applied after the sweep')
        if ok:
            late = [order[i] for i in range(idx[adjust] + 1, len(order)) if order[i][0] in ('loop', 'dispatch', 'scalar', 'wait')]
            R('proto', 'boundary-adjust-last', tag, not late and idx[adjust] > idx['wait'], S.loc(order[idx[adjust]][1]), f'{adjust} runs before the sweep is complete')
    sp = spec(vac)
    # argument forwarding of helper calls
    for k, e in order:
        if k == 'call' and kern.base_of(e.callee).startswith(('local_', 'begin_remote', 'end_remote')):
            M = S.model((3, 2, 2))
            p = M.pit()
            ok = len(e.args) == 2 and p.ev(e.args[0]) == M.fb and p.ev(e.args[1]) == M.gp and e.guard == g.TRUE
            R('proto', 'helper-args', f'{tag}:{kern.base_of(e.callee)}', ok, S.loc(e), 'helper is not applied unconditionally to this field array and grid')
    reported = set()

    def once(rule, key):
        if (rule, key) in reported:
            return False
        reported.add((rule, key))
        return True
    fails = {}
    stats = {'interior': 0, 'exterior': 0}
    for dims in sizes:
        M = S.model(dims)
        lin = cs.lin(dims, M)
        ps = cs.positions(dims)
        touched = {}
        iw, ir = {}, {}
        # interior
        for pos in ps:
            reads = set()
            pit, out = cs.transfer(dims, M, pos, lin, reads)
            iw[pos], ir[pos] = out, reads
            for a, v in out.items():
                touched.setdefault(a, []).append((v, reads, 'interior', None, pos))
                stats['interior'] += 1
        # race freedom between pipelines: no iteration touches what another one writes
        owner = {}
        for pos in ps:
            for a in iw[pos]:
                owner.setdefault(a, set()).add(pos)
        bad = None
        for pos in ps:
            for a in set(iw[pos]) | ir[pos]:
                o = owner.get(a)
                if o and (len(o) > 1 or pos not in o):
                    bad = (pos, a)
                    break
            if bad:
                break
        fails.setdefault(('race', 'iterations-independent'), [])
        if bad:
            fails[('race', 'iterations-independent')].append((pw, f'grid {dims}: voxel {bad[0]} touches {M.f.decode(bad[1])}, written by voxel {sorted(owner[bad[1]])[:2]}'))
        # exterior (host)
        pit = M.pit()
        conc = []
        allr = set()
        for pos in ps:
            allr |= ir[pos]
        alladdr = set(owner) | allr
        fails.setdefault(('race', 'host-overlap'), [])
        for i, (k, e) in enumerate(order):
            between = idx['dispatch'] < i < idx['wait']
            if k in ('loop', 'store'):
                effs = [e]
                for s in domain(pit, effs, i):
                    if M.f.decode(s.addr) is None:
                        continue
                    touched.setdefault(s.addr, []).append((s.val, s.reads, i, s.e, None))
                    stats['exterior'] += 1
                    if between:
                        if s.addr in alladdr:
                            fails[('race', 'host-overlap')].append((S.loc(s.e), f'grid {dims}: host writes {M.f.decode(s.addr)} while the pipelines use it'))
                        for r in s.reads:
                            if r in owner:
                                fails[('race', 'host-overlap')].append((S.loc(s.e), f'grid {dims}: host reads {M.f.decode(r)} while the pipelines write it'))
            elif k == 'call' and between:
                ws = write_set(mod, g, M, e)
                hit = [a for a in ws if a in alladdr]
                if hit:
                    fails[('race', 'host-overlap')].append((S.loc(e), f'grid {dims}: {e.callee} writes {M.f.decode(hit[0])} while the pipelines use it'))
        # ghost sets
        gset = set()
        if ghost:
            for k, e in order:
                if k == 'call' and kern.base_of(e.callee) in (nl, ne):
                    gset |= write_set(mod, g, M, e)
        # coverage and formula
        fc = fails.setdefault(('cover', 'exactly-once'), [])
        ff = fails.setdefault(('cover', 'formula'), [])
        fo = fails.setdefault(('cover', 'confined'), [])
        fg = fails.setdefault(('ghost', 'reads-defined'), [])
        want = {}
        for comp, (ext, fml) in sp.items():
            for p in box(dims, ext):
                want[M.f.addr(comp, *p)] = (comp, p, fml)
        for a, (comp, p, fml) in want.items():
            t = touched.get(a, [])
            # a site that stores back the value it read does not count
            tt = [x for x in t if not (x[0] == M.load(a) and len(t) > 1)]
            if len(tt) != 1:
                e = tt[1][3] if len(tt) > 1 else None
                fc.append((S.loc(e), f'grid {dims}: {comp}{p} is updated {len(tt)} times per sweep'))
                continue
            exp = fml(M, p, S)
            if tt[0][0] != exp:
                e = tt[0][3]
                ff.append((S.loc(e) if e is not None else pw, f'grid {dims}: value computed for {comp}{p} ({"interior pipeline" if e is None else "host exterior loop"}) differs from the scheme'))
        for a, t in touched.items():
            if a in want:
                continue
            for x in t:
                if x[0] != M.load(a):
                    fo.append((S.loc(x[3]) if x[3] is not None else pw, f'grid {dims}: sweep modifies {M.f.decode(a)}, which it does not own'))
        for a, t in touched.items():
            if a not in want:
                continue
            for v, reads, phase, e, pos in t:
                for r in reads:
                    d = M.f.decode(r)
                    if d is None:
                        continue
                    ext = owned_ext(d[0])
                    if ext is None or d[0][1:4] == 'mat':
                        continue
                    if all(1 <= q <= n + x for q, n, x in zip(d[1:], dims, ext)):
                        continue
                    late = phase != 'interior' and phase > i_end and i_end >= 0
                    if r in gset and late:
                        continue
                    # neighbour planes multiplied by a zero coefficient (unit-width direction) do not matter
                    if dep_free(S, M, a, v, r, e, pos, dims, lin, cs):
                        continue
                    fg.append((S.loc(e) if e is not None else pw, f'grid {dims}: update of {M.f.decode(a)} uses {d[0]}{d[1:]}, ' + ('before the ghost exchange has completed' if r in gset else 'which no exchange fills')))
                    break
        # vector == scalar
        if S.cv is not None:
            fv = fails.setdefault(('vector', 'lanes-equal-scalar'), [])
            lv = S.cv.lin(dims, M)
            for i in range(len(ps) - S.W + 1):
                _, ov = S.cv.transfer(dims, M, ps[i], lv)
                os_ = {}
                for j in range(S.W):
                    os_.update(iw[ps[i + j]])
                for a in set(ov) | set(os_):
                    x = ov.get(a)
                    y = os_.get(a)
                    if x is None:
                        x = M.load(a)
                    if y is None:
                        y = M.load(a)
                    if x != y:
                        fv.append((f'{S.pv.f.file}:{S.pv.f.line}', f'grid {dims}: vector block at {ps[i]}: lane {ps.index(M.f.decode(a)[1:]) - i if M.f.decode(a) and M.f.decode(a)[1:] in ps else "?"} value of {M.f.decode(a)} differs from the scalar pipeline'))
                        break
                if fv:
                    break
    for (cat, rule), l in fails.items():
        inst = tag
        R(cat, rule, inst, not l, l[0][0] if l else S.loc(), l[0][1] + (f' (+{len(l) - 1} more)' if len(l) > 1 else '') if l else '')
    R('stat', 'sites', tag, True, S.loc(), f'{stats}')


def dep_free(S, M, a, v, r, e, pos, dims, lin, cs):
    """does the value not depend on the read cell? (perturb it)"""
    old = M.mem.get(r)
    M.mem[r] = (M.load(r) + 12345) % P
    try:
        if e is None:
            _, out = cs.transfer(dims, M, pos, lin)
            return out.get(a) == v
        for s in domain(M.pit(), [next(x for k, x, d in S.host.timeline if k in ('loop', 'store') and contains(x, e))], 0, False):
            if s.addr == a:
                return s.val == v
        return False
    finally:
        if old is None:
            del M.mem[r]
        else:
            M.mem[r] = old


def contains(x, e):
    if x is e:
        return True
    if x.kind == 'loop':
        return any(contains(q, e) for q in x.loop.effects)
    return False


def all_sweeps(ctx, cfgs, cats, kernels=None, sizes=None):
    """run the sweep analysis for every kernel and configuration; report the rule categories `cats`"""
    import par
    mods = {}
    for c in cfgs:
        mods[c] = ctx.mod(c, norm=proj.NORMV)
    ks = {k[0]: k for k in KERNELS if not kernels or k[0] in kernels}
    tasks = [(c, k) for k in sorted(ks, key=lambda k: -('tang_b' == ks[k][3])) for c in cfgs]

    def job(t):
        c, k = t
        S = Sweep(mods[c], k)
        out = []
        run_sweep(S, *ks[k][1:], lambda *r: out.append(r), cfg=c, sizes=sizes)
        return out, [S.f.dname, S.ps.f.dname] + ([S.pv.f.dname] if S.pv else [])
    for t, r in zip(tasks, par.pmap(job, tasks)):
        if r[0] != 'ok':
            ctx.undecided(f'{t[1]}/{t[0]}', r[1])
            continue
        for cat, rule, inst, ok, where, msg in r[1][0]:
            if cat == 'stat':
                ctx.note(f'{inst}: store sites resolved {msg}')
            elif cat == 'undecided':
                if not cats & {'dist', 'cover'}:
                    ctx.undecided(inst, why_und(rule, msg))
            elif cat in cats:
                ctx.expect(ok, rule, inst, where, msg)
        for f in r[1][1]:
            ctx.saw(f)


def why_und(rule, msg):
    return f'{rule}: work distribution is broken ({msg})'
