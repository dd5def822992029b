"""Particle pipelines: work partition over the particle array, per-particle transfer
against the specification, and vector == scalar."""
import vg, kern, proj
from vg import P, Graph, Build, Pit, walk
from kern import Model, Host, Pipe, sgn, loop_env
from proj import Broken
import fieldan
from fieldan import fr, inv, base_scalar, width_of

XYZ = 'xyz'
CYC = {'x': ('x', 'y', 'z'), 'y': ('y', 'z', 'x'), 'z': ('z', 'x', 'y')}


class PM(Model):
    """small model: species, accumulator / interpolator / hydro arrays and grid"""

    def __init__(self, g, seed, mod, roles, np, dims=(3, 4, 5), nm=64, first=0):
        Model.__init__(self, g, seed)
        p = Pit(g, seed)
        self.dims = dims
        S = mod.structs
        self.S = S
        self.np = np
        self.obj = {}
        self.base = {}
        nx, ny, nz = dims
        nv = (nx + 2) * (ny + 2) * (nz + 2)
        self.nv = nv
        self.gp = p.h(801, 1)
        gs = S['grid']
        for k, v in dict(nx=nx, ny=ny, nz=nz, sx=1, sy=nx + 2, sz=(nx + 2) * (ny + 2), nv=nv).items():
            self.mem[(self.gp + gs.off(k)) % P] = v
        self.gs = gs
        for role, node in roles.items():
            a = p.ev(node)
            self.obj[role] = a
            st = S[role]
            self.mem[(a + st.off('g')) % P] = self.gp
        self.species = S['species']
        if 'species' in self.obj:
            sp = self.obj['species']
            self.pbase = p.h(801, 3)
            self.pmbase = p.h(801, 4)
            self.set('species', 'p', self.pbase)
            self.set('species', 'pm', self.pmbase)
            self.set('species', 'np', np)
            self.set('species', 'max_np', np + 8)
            self.set('species', 'max_nm', nm)
        self.psz = S['particle'].size
        self.ibase = p.h(801, 5)
        self.abase = p.h(801, 6)
        self.hbase = p.h(801, 7)
        self.memfn.append(self.voxels)
        if 'interpolator_array' in self.obj:
            self.set('interpolator_array', 'i', self.ibase)
        if 'accumulator_array' in self.obj:
            self.set('accumulator_array', 'a', self.abase)
            self.set('accumulator_array', 'stride', (nv + 1) // 2 * 2)
        if 'hydro_array' in self.obj:
            self.set('hydro_array', 'h', self.hbase)
            self.set('hydro_array', 'stride', (nv + 1) // 2 * 2)
        self.forced = {}
        self.oncall = None

    def set(self, role, field, v):
        self.mem[(self.obj[role] + self.S[role].off(field)) % P] = v % P

    def get(self, role, field):
        return self.load(self.obj[role] + self.S[role].off(field))

    def G(self, k):
        return self.load(self.gp + self.gs.off(k))

    def voxels(self, a):
        """voxel index of every particle: distinct interior voxels"""
        if 'species' not in self.obj:
            return None
        d = sgn(a - self.pbase)
        o = self.S['particle'].off('i')
        if 0 <= d < self.psz * (self.np + 64) and d % self.psz == o:
            return self.voxel_of(d // self.psz)
        return None

    def voxel_of(self, n):
        nx, ny, nz = self.dims
        n = (n * 7 + 3) % (nx * ny * nz)
        return 1 + n % nx + (nx + 2) * (1 + n // nx % ny + (ny + 2) * (1 + n // (nx * ny)))

    def pa(self, n, field):
        return (self.pbase + self.psz * n + self.S['particle'].off(field)) % P

    def p(self, n, field):
        return self.load(self.pa(n, field))

    def I(self, n, field):
        st = self.S['interpolator']
        return self.load(self.ibase + st.size * self.voxel_of(n) + st.off(field))

    def pit(self, env=None, **k):
        q = Model.pit(self, env, **k)
        q.forced = self.forced
        q.tick = 0
        return q


def parts(m, n):
    """position, momentum, fields at particle n"""
    x = {a: m.p(n, 'd' + a) for a in XYZ}
    u = {a: m.p(n, 'u' + a) for a in XYZ}
    E, B = {}, {}
    for a in XYZ:
        _, b, c = CYC[a]
        # ex + dy*dexdy + dz*(dexdz + dy*d2exdydz)
        E[a] = (m.I(n, 'e' + a) + x[b] * m.I(n, f'de{a}d{b}') + x[c] * (m.I(n, f'de{a}d{c}') + x[b] * m.I(n, f'd2e{a}d{b}d{c}'))) % P
        B[a] = (m.I(n, 'cb' + a) + x[a] * m.I(n, f'dcb{a}d{a}')) % P
    return x, u, E, B


def qdt2mc(m):
    return m.get('species', 'q') * m.G('dt') % P * inv(2 * m.get('species', 'm') * m.G('cvac')) % P


def boris(pit, u, B, k):
    """rotation of u about B with half-angle parameter k = (q dt / 2 m c) (or half of it)"""
    u2 = sum(v * v for v in u.values()) % P
    gam = pit.sqrt((1 + u2) % P)
    v0 = k * inv(gam) % P
    b2 = sum(v * v for v in B.values()) % P
    v2 = v0 * v0 % P * b2 % P
    v3 = v0 * (1 + v2 * (fr(1, 3) + v2 * fr(2, 15))) % P
    v4 = 2 * v3 * inv(1 + b2 * v3 % P * v3) % P
    w = {}
    for a in XYZ:
        _, b, c = CYC[a]
        w[a] = (u[a] + v3 * (u[b] * B[c] - u[c] * B[b])) % P
    r = {}
    for a in XYZ:
        _, b, c = CYC[a]
        r[a] = (u[a] + v4 * (w[b] * B[c] - w[c] * B[b])) % P
    return r


def add(u, v, k=1):
    return {a: (u[a] + k * v[a]) % P for a in XYZ}


def spec_center(m, pit, n):
    x, u, E, B = parts(m, n)
    k = qdt2mc(m)
    u = boris(pit, add(u, E, k), B, k * fr(1, 2))
    return {m.pa(n, 'u' + a): u[a] for a in XYZ}


def spec_uncenter(m, pit, n):
    x, u, E, B = parts(m, n)
    k = qdt2mc(m)
    u = add(boris(pit, u, B, -k * fr(1, 2)), E, -k)
    return {m.pa(n, 'u' + a): u[a] for a in XYZ}


def push(m, pit, n):
    x, u, E, B = parts(m, n)
    k = qdt2mc(m)
    u = add(boris(pit, add(u, E, k), B, k), E, k)
    g = pit.sqrt((1 + sum(v * v for v in u.values())) % P)
    d = {a: u[a] * m.G('cvac') % P * m.G('dt') % P * m.G('rd' + a) % P * inv(g) % P for a in XYZ}
    return x, u, d


def quads(q, d, mid):
    """4 times the charge through the four quadrants of the three faces, for a displacement d
    (half of the cell-normalised move) about midpoint mid"""
    c = q * d['x'] % P * d['y'] % P * d['z'] % P * fr(1, 3) % P
    out = []
    for a in XYZ:
        _, b, e = CYC[a]
        f = q * d[a] % P
        out += [(f * (1 + sb * mid[b]) % P * (1 + se * mid[e]) + (c if sb == se else -c)) % P for se in (-1, 1) for sb in (-1, 1)]
    return out


def energy_inc(m, pit, n):
    x, u, E, B = parts(m, n)
    k = qdt2mc(m)
    v = add(u, E, k)
    v2 = sum(q * q for q in v.values()) % P
    return m.get('species', 'm') * m.p(n, 'w') % P * v2 % P * inv(1 + pit.sqrt((1 + v2) % P)) % P


HYDRO = ['jx', 'jy', 'jz', 'rho', 'px', 'py', 'pz', 'ke', 'txx', 'tyy', 'tzz', 'tyz', 'tzx', 'txy']


def hydro_inc(m, pit, n):
    """{(corner, moment): increment}"""
    x, u, E, B = parts(m, n)
    k = qdt2mc(m)
    c = m.G('cvac')
    q, ms, w = m.get('species', 'q'), m.get('species', 'm'), m.p(n, 'w')
    u = add(u, E, k)
    u2 = sum(a * a for a in u.values()) % P
    gam = pit.sqrt((1 + u2) % P)
    ke = c * u2 % P * inv(1 + gam) % P
    u = boris(pit, u, B, k * fr(1, 2))
    v = {a: u[a] * c % P * inv(gam) % P for a in XYZ}
    out = {}
    for cz in (0, 1):
        for cy in (0, 1):
            for cx in (0, 1):
                t = m.G('r8V') * w % P
                for s, a in ((cx, 'x'), (cy, 'y'), (cz, 'z')):
                    t = t * (1 + (2 * s - 1) * x[a]) % P
                mt = ms * c % P * t % P
                r = {'rho': q * t, 'ke': mt * ke}
                for a in XYZ:
                    r['j' + a] = q * t % P * v[a]
                    r['p' + a] = mt * u[a]
                for t1, (a, b) in {'xx': 'xx', 'yy': 'yy', 'zz': 'zz', 'yz': 'yz', 'zx': 'zx', 'xy': 'xy'}.items():
                    r['t' + t1] = mt * u[a] % P * v[b]
                for kk, vv in r.items():
                    out[(cx, cy, cz), kk] = vv % P
    return out


# ---------------------------------------------------------------------------
HUGE = {70001: (1, 3, 17), 40000003: (2, 7, 17)}   # beyond 16-bit counters and single precision
NPS = [0, 1, 15, 16, 17, 31, 33, 48, 63, 64, 65, 101]


class PK:
    """one particle kernel (host + pipelines) in one configuration"""

    def __init__(self, mod, name, roles):
        self.mod, self.name = mod, name
        self.g = g = Graph()
        f = mod.func(name + '_pipeline') or mod.func(name)
        if f is None:
            raise Broken(f'particle kernel {name} not found')
        self.f = f
        self.host = Host(g, mod, f)
        self.roles = {r: g.ptr(g.mk('arg', (self.host.b.tag, i))) for r, i in roles.items()}
        if len(self.host.disp) != 1:
            raise Broken(f'{name}: expected one pipeline dispatch, found {len(self.host.disp)}')
        self.d = self.host.disp[0]
        self.scalar_name = base_scalar(mod, self.d)
        self.ps = Pipe(g, mod, self.scalar_name, self.host, self.d)
        self.W = width_of(self.d.fn)
        self.pv = Pipe(g, mod, self.d.fn, self.host, self.d) if self.d.fn != self.scalar_name else None

    def model(self, np, seed=11, **k):
        return PM(self.g, seed, self.mod, self.roles, np, **k)

    def main(self, pipe):
        ls = pipe.main()
        if len(ls) != 1:
            raise Broken(f'{pipe.f.dname}: expected one work loop, found {len(ls)}')
        return ls[0]

    def where(self, pipe=None):
        f = pipe.f if pipe else self.f
        return f'{f.file}:{f.line}'


def iter_env(pipe, le, m, rank, n, k, mus=None):
    L = le.loop
    env = {pipe.rank: rank, pipe.n: n, L.k: k, L.cont: 1}
    for pid, (c, i, nx, p) in L.phis.items():
        if pid in L.solved:
            continue
        for q in (c if isinstance(c, tuple) else (c,)):
            env[q] = 0
    if mus:
        env.update(mus)
    return env


def touch(pit, effects, L=None):
    """evaluate everything an iteration computes (for the read set)"""
    for e in effects:
        if e.kind == 'store':
            pit.ev(e.guard)
            pit.ev(e.addr)
            pit.ev(e.val)
        elif e.kind == 'call':
            for a in e.args:
                if a is not None and not isinstance(a, tuple):
                    pit.ev(a)
        elif e.kind == 'loop':
            p2 = pit.child(loop_env(pit, e.loop, 0))
            touch(p2, e.loop.effects)


def rank_ranges(K, pipe, W, np, n, ranks):
    """item range of every pipeline: (rank, first, count); the item sets of the first, second and
    last iteration are resolved from the read set"""
    le = K.main(pipe)
    L = le.loop
    m = K.model(np)
    out = []
    if L.trips is None:
        raise Broken(f'{pipe.f.dname}: trip count of the particle loop not recovered')
    for r in ranks:
        pit = m.pit({pipe.rank: r, pipe.n: n})
        t = pit.small(pit.ev(L.trips))
        if t is None:
            raise Broken(f'{pipe.f.dname}: particle count of a pipeline is not an integer expression of the arguments')
        t = max(t, 0) if pit.ev(le.guard) else 0
        first = None
        ok = True
        for k in sorted({0, 1, t - 1}):
            if not 0 <= k < t:
                continue
            p2 = m.pit(iter_env(pipe, le, m, r, n, k))
            p2.reads = set()
            touch(p2, L.effects)
            for pid, (c, i, nx, ph) in L.phis.items():
                if pid not in L.solved:
                    for q in (nx if isinstance(nx, tuple) else (nx,)):
                        p2.ev(q)
            items = set()
            for a in p2.reads:
                d = sgn(a - m.pbase)
                if -64 * m.psz <= d < m.psz * (np + 64):
                    items.add(d // m.psz)
            items = sorted(items)
            if not items or items != list(range(items[0], items[0] + W)):
                return None, f'iteration {k} of pipeline {r} of {n} works on particles {items[:6]} instead of {W} consecutive ones (np={np})'
            if first is None:
                first = items[0] - k * W
            if items[0] != first + k * W:
                return None, f'iteration {k} of pipeline {r} of {n} works on particle {items[0]}, expected {first + k * W} (np={np})'
        out.append((r, first, t * W))
    return out, None


def partition(K, R, cfg, nps=NPS, ns=(1, 2, 3, 5)):
    """every particle is processed by exactly one pipeline / straggler call"""
    iss = K.host.exec_issue(K.d)
    R('dist', 'straggler-call', f'{K.name}/{cfg}', iss is None, K.where(), iss or '')
    for np in list(nps) + list(HUGE):
        for n in ns if np not in HUGE else HUGE[np]:
            pipe, W = (K.pv, K.W) if K.pv else (K.ps, 1)
            a, e = rank_ranges(K, pipe, W, np, n, list(range(n)))
            if a is not None:
                b, e = rank_ranges(K, K.ps, 1, np, n, [n])
                a = a + b if b is not None else None
            if a is None:
                R('dist', 'particles-once', f'{K.name}/{cfg}', False, K.where(pipe), e)
                return False
            miss, dup, oob, at, pr = [], [], [], 0, None
            for f, c, r in sorted((f, c, r) for r, f, c in a if c):
                if f < 0 or f + c > np:
                    oob = oob or [(f if f < 0 else np, r)]
                if f > at:
                    miss = miss or [at]
                if f < at:
                    dup = dup or [(f, pr, r)]
                at, pr = max(at, f + c), r
            if at < np:
                miss = miss or [at]
            if miss or dup or oob:
                what = f'particle {miss[0]} is processed by no pipeline' if miss else f'particle {dup[0][0]} is processed by pipelines {dup[0][1:]}' if dup else f'slot {oob[0][0]} outside the list is processed by pipeline {oob[0][1]}'
                R('dist', 'particles-once', f'{K.name}/{cfg}', False, K.where(pipe), f'{what} ({np} particles, {n} pipelines)')
                return False
    R('dist', 'particles-once', f'{K.name}/{cfg}', True, K.where(), '')
    return True


class Ev:
    __slots__ = ('st', 'calls', 'order', 'nxt', 'reads')


def run_iter(K, pipe, m, rank, n, k, mus=None):
    """transfer of one iteration: stores {addr: value}, calls [(name, args, argmem)]"""
    le = K.main(pipe)
    pit = m.pit(iter_env(pipe, le, m, rank, n, k, mus))
    pit.reads = set()
    r = Ev()
    r.st, r.calls, r.order = {}, [], []
    flow(pit, le.loop.effects, r, m)
    r.nxt = {}
    for pid, (c, i, nx, ph) in le.loop.phis.items():
        if pid in le.loop.solved:
            continue
        for q, x in zip(c if isinstance(c, tuple) else (c,), nx if isinstance(nx, tuple) else (nx,)):
            r.nxt[q] = pit.ev(x)
    r.reads = pit.reads
    return r, pit


def flow(pit, effects, r, m=None):
    for e in effects:
        if e.kind == 'store':
            if pit.ev(e.guard):
                r.st[pit.ev(e.addr)] = kern.fval(pit, e.val)
        elif e.kind == 'call':
            if pit.ev(e.guard):
                am = {}
                for root, d in (e.argmem or {}).items():
                    for o, v in d.items():
                        am[(pit.ev(root) + pit.ev(o)) % P] = kern.fval(pit, v)
                c = (e.callee, [pit.ev(a) if a is not None and not isinstance(a, tuple) else None for a in e.args], am, e)
                r.calls.append(c)
                if m is not None and m.oncall:
                    v = m.oncall(pit, c)
                    if v is not None and isinstance(e.res, int):
                        pit.v[e.res] = v % P
        elif e.kind == 'loop':
            if not pit.ev(e.guard):
                continue
            t = pit.small(pit.ev(e.loop.trips)) if e.loop.trips is not None else None
            if t is None or t > 256 or kern.unsolved(e.loop):
                raise Broken('inner loop of a particle kernel without a recovered iteration domain')
            for k in range(max(0, t)):
                flow(pit.child(loop_env(pit, e.loop, k)), e.loop.effects, r, m)


def widemodel(K, np, seed=11):
    """model whose particles sit in pairwise non-adjacent cells"""
    m = K.model(np, seed, dims=(2 * np + 3, 4, 5))
    nx = m.dims[0]
    m.voxel_of = lambda n: 1 + 2 * (n % np) + (nx + 2) * (2 + (nx * 0) + 6 * 2)
    return m


def regular(K, m, rank, n, k, item):
    """choose the momentum of a particle so that every square root the kernel takes of it exists in
    the field (then Newton-refined reciprocal square roots and exact ones coincide)"""
    for t in range(400):
        m.mem[m.pa(item, 'ux')] = m.rnd.h(950, item, t)
        ev, pit = run_iter(K, K.ps, m, rank, n, k)
        if pit.nr[0] == 0:
            return ev, pit
    raise Broken(f'{K.name}: no regular sample point')


def dec(m, a):
    """human readable name of an address"""
    for nm, b, st in (('p', m.pbase, 'particle'), ('pm', m.pmbase, 'particle_mover'), ('a', m.abase, 'accumulator'), ('h', m.hbase, 'hydro')):
        d = sgn(a - b)
        sz = m.S[st].size
        if 0 <= d < sz * 10 ** 6:
            f = m.S[st].field_at(d % sz)
            return f'{nm}[{d // sz}].{f[0] if f else d % sz}' + (f'[{(d % sz - f[1]) // 4}]' if f and d % sz != f[1] else '')
    return 'other memory'


def simple_spec(K, R, cfg, spec, what):
    """per-particle transfer of the scalar pipeline == specification; vector == scalar"""
    name = K.name
    np = 40
    bad = None
    for seed in (11, 12):
        m = widemodel(K, np, seed)
        for rank, n in ((0, 1), (1, 2)):
            rr, e = rank_ranges(K, K.ps, 1, np, n, [rank])
            first = rr[0][1]
            ev, pit = regular(K, m, rank, n, 0, first)
            exp, acc = spec(m, pit, first, rank)
            for a in set(exp) | set(ev.st):
                x, y = ev.st.get(a), exp.get(a)
                x = m.load(a) if x is None else x
                y = m.load(a) if y is None else y
                if x != y:
                    bad = f'value computed for {dec(m, a).replace("[%d]" % first, "[n]")} differs from {what}'
            if acc is not None:
                got = sorted(ev.nxt.values())
                if got != sorted(acc):
                    bad = f'per-particle contribution differs from {what}'
    R('formula', 'per-particle', f'{name}/{cfg}', bad is None, K.where(K.ps), bad or '')
    if K.pv is None:
        return
    bad = None
    for rank, n in ((0, 1), (1, 2)):
        m = widemodel(K, np)
        rr, e = rank_ranges(K, K.ps, 1, np, n, [rank])
        for kv in (0, 1):
            st, accs = {}, 0
            for j in range(K.W):
                es, _ = regular(K, m, rank, n, kv * K.W + j, rr[0][1] + kv * K.W + j)
                st.update(es.st)
                accs += sum(es.nxt.values())
            ev, pit = run_iter(K, K.pv, m, rank, n, kv)
            for a in set(st) | set(ev.st):
                x, y = ev.st.get(a), st.get(a)
                x = m.load(a) if x is None else x
                y = m.load(a) if y is None else y
                if x != y:
                    bad = f'vector iteration {kv}: value of {dec(m, a)} differs from the scalar pipeline'
            if sum(ev.nxt.values()) % P != accs % P:
                bad = f'vector iteration {kv}: accumulated contribution differs from the scalar pipeline'
    R('vector', 'lanes-equal-scalar', f'{name}/{cfg}', bad is None, K.where(K.pv), bad or '')


def sp_center(m, pit, n, rank):
    return spec_center(m, pit, n), None


def sp_uncenter(m, pit, n, rank):
    return spec_uncenter(m, pit, n), None


def sp_energy(m, pit, n, rank):
    return {}, [energy_inc(m, pit, n)]


def sp_hydro(m, pit, n, rank):
    h = m.S['hydro']
    v = m.voxel_of(n)
    out = {}
    base = m.hbase + rank * m.get('hydro_array', 'stride') * h.size
    nx, ny, nz = m.dims
    for ((cx, cy, cz), f), inc in hydro_inc(m, pit, n).items():
        a = (base + h.size * (v + cx + (nx + 2) * (cy + (ny + 2) * cz)) + h.off(f)) % P
        out[a] = (m.load(a) + inc) % P
    return out, None


# ---------------------------------------------------------------------------
# advance_p: the transfer of one particle (push, deposit, hand over to the cell-crossing mover)
import os
DBG = os.environ.get('VPDBG')
AXC = ('jx', 'jy', 'jz')


class Mover:
    """scenario for the particles of an advance_p iteration"""

    def __init__(self, m, gamma):
        self.m = m
        self.out = {}        # particle -> None (stays in its cell) or (face sign choices)
        self.ret = {}        # particle -> result of move_p
        self.after = {}      # address -> (particle, offset): contents of the mover after move_p
        m.oncall = self.oncall
        m.memfn.append(self.mem)

    def mem(self, a):
        k = self.after.get(a)
        return after_move(self.m, *k) if k else None

    def oncall(self, pit, c):
        name, args, am, e = c
        if kern.base_of(name).startswith('move_p'):
            st = self.m.S['particle_mover']
            n = am.get((args[1] + st.off('i')) % P)
            n = sgn(n) if n is not None else None
            for o in range(0, st.size, 4):
                self.after[(args[1] + o) % P] = (n, o)
            return self.ret.get(n, 0)
        return None


def after_move(m, n, o):
    """contents of a mover after move_p: the particle index is kept, the rest is unknown"""
    return n if o == m.S['particle_mover'].off('i') else m.rnd.h(970, n, o)


def force_inbounds(m, x, d, out):
    """fix the side of every face the new position is on"""
    for i, a in enumerate(XYZ):
        np_ = (x[a] + 2 * d[a]) % P
        lo, hi = (np_ + 1) % P, (np_ - 1) % P
        s = out[i] if out else 0
        m.forced[hi] = 1 if s > 0 else -1
        m.forced[lo] = -1 if s < 0 else 1


def advance_expect(m, pit, n, rank, npipe, out, ret, room, mv):
    """(stores, calls) the specification prescribes for particle n"""
    x, u, d = push(m, pit, n)
    st = {m.pa(n, 'u' + a): u[a] for a in XYZ}
    blk = 0 if rank == npipe else 1 + rank
    S = m.S['accumulator']
    abase = (m.abase + blk * m.get('accumulator_array', 'stride') * S.size) % P
    q = m.get('species', 'q')
    calls = []
    if not out:
        for a in XYZ:
            st[m.pa(n, 'd' + a)] = (x[a] + 2 * d[a]) % P
        mid = {a: (x[a] + d[a]) % P for a in XYZ}
        for i, v in enumerate(quads(q * m.p(n, 'w') % P, d, mid)):
            a = (abase + S.size * m.voxel_of(n) + S.off(AXC[i // 4]) + 4 * (i % 4)) % P
            st[a] = (m.load(a) + v) % P
    else:
        calls.append((n, tuple(d[a] for a in XYZ), abase))
        if ret and not room:
            st[m.pa(n, 'i')] = ('shr3',)
    return st, calls


def seg_stores(K, pipe, m, rank, n):
    """{field: node} written to the mover segment of this pipeline after the loop"""
    pit = m.pit({pipe.rank: rank, pipe.n: n})
    S = m.S['particle_mover_seg']
    out = []
    for e in pipe.b.effects:
        if e.kind == 'store':
            out.append((sgn(pit.ev(e.addr) - m.segbase), e.val, e))
    r = {}
    for a, v, e in out:
        if 0 <= a < S.size * (n + 2):
            f = S.field_at(a % S.size)
            r[f[0]] = (v, a // S.size, e)
    return r


def phi_of(g, L, node):
    """loop phi whose exit value the node is"""
    op, pl, ar = g.nodes[node]
    if op == 'mux':
        return pl[1]
    return None


def advance_spec(K, R, cfg):
    name = K.name
    g = K.g
    np = 64 + 16
    S = K.mod.structs

    def fresh(seed, max_nm):
        m = widemodel(K, np, seed)
        m.set('species', 'max_nm', max_nm)
        # the segment array is a local of the host: give it a known address
        segoff = None
        m.segbase = m.rnd.h(801, 9)
        for d in K.host.disp:
            for root, mm in (d.argmem or {}).items():
                for o, v in mm.items():
                    pass
        return m
    where = K.where(K.ps)
    # --- where the loops keep the mover count -----------------------------
    m = fresh(11, 64)
    seg = {}
    for pipe in [K.ps] + ([K.pv] if K.pv else []):
        L = K.main(pipe).loop
        pit0 = m.pit({pipe.rank: 0, pipe.n: 2})
        pit1 = m.pit({pipe.rank: 1, pipe.n: 2})
        sz = S['particle_mover_seg'].size
        c = []
        for e in pipe.b.effects:
            if e.kind == 'store' and sgn(pit1.ev(e.addr) - pit0.ev(e.addr)) == sz:
                c.append((sgn(pit0.ev(e.addr)), e))
        if len(c) < 4:
            R('mover', 'segment-recorded', f'{pipe.f.dname}/{cfg}', False, K.where(pipe), f'only {len(c)} of the 4 fields of the pipeline\'s mover segment are recorded')
            return
        lo = min(a for a, e in c)
        fl = {}
        for a, e in c:
            f = S['particle_mover_seg'].field_at(a - lo)
            fl[f[0]] = e
        phis = {}
        for k in ('nm', 'n_ignored'):
            pid = phi_of(g, L, fl[k].val)
            if pid is None or pid not in L.phis:
                raise Broken(f'{pipe.f.dname}: the recorded {k} is not a loop-carried counter')
            phis[k] = L.phis[pid][0]
            ok = m.pit({pipe.rank: 0, pipe.n: 2}).ev(L.phis[pid][1]) == 0
            R('mover', 'segment-recorded', f'{pipe.f.dname}/{cfg}:{k}', ok, K.where(pipe), f'counter {k} does not start at zero')
        seg[pipe] = (fl, phis)
    # --- segments are disjoint and inside the mover list ------------------
    bad = None
    msz = S['particle_mover'].size
    for npart in (0, 5, 16, 40, 101):
        for max_nm in (0, 3, 8, 17, 64, 100):
            for n in (1, 2, 3, 5):
                mm = K.model(npart, 11)
                mm.set('species', 'max_nm', max_nm)
                used = []
                for rank in range(n + 1):
                    pipe = K.ps if rank == n or not K.pv else K.pv
                    pit = mm.pit({pipe.rank: rank, pipe.n: n})
                    o = sgn(pit.ev(seg[pipe][0]['pm'].val) - mm.pmbase)
                    c = sgn(pit.ev(seg[pipe][0]['max_nm'].val))
                    if c <= 0:
                        continue
                    if o % msz or o < 0 or o // msz + c > max_nm:
                        bad = f'pipeline {rank} of {n} may write movers {o // msz}..{o // msz + c - 1} of a list of {max_nm} ({npart} particles)'
                    used.append((o // msz, c, rank))
                used.sort()
                for (a, c, r), (a2, c2, r2) in zip(used, used[1:]):
                    if a + c > a2:
                        bad = f'pipelines {r} and {r2} of {n} share movers {a2}..{a + c - 1} (list of {max_nm}, {npart} particles)'
    R('mover', 'segments-disjoint', f'{name}/{cfg}', bad is None, where, bad or '')
    compaction(K, R, cfg)
    # --- one particle, scalar ---------------------------------------------
    import random
    rnd = random.Random(5)
    bad = None

    def prep(m, mv, items, outs, rets, pipe_rank, npipe):
        """choose regular momenta and fix the scenario"""
        for j, it in enumerate(items):
            o = outs[j]
            for t in range(400):
                m.mem[m.pa(it, 'ux')] = m.rnd.h(950, it, t)
                q = m.pit()
                x, u, d = push(m, q, it)
                if q.nr[0] == 0:
                    break
            else:
                raise Broken(f'{name}: no regular sample point')
            force_inbounds(m, x, d, o)
            mv.ret[it] = rets[j]

    def outs_for(kind, j):
        if kind == 'in':
            return None
        if kind == 'out':
            return [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1), (1, 1, 0), (-1, 0, 1), (1, -1, 1)][j % 9]
        return None if rnd.random() < .5 else outs_for('out', rnd.randrange(9))

    def run_scalar(m, mv, rank, npipe, k, it, out, ret, nm, room):
        fl, ph = seg[K.ps]
        ev, pit = run_iter(K, K.ps, m, rank, npipe, k, {ph['nm']: nm, ph['n_ignored']: 0})
        return ev, pit, fl, ph
    msgs = []
    for rank, npipe in ((0, 1), (1, 2), (2, 2)):
        for j, kind in enumerate(['in', 'in'] + ['out'] * 9):
            for ret, nm, room in ((0, 0, True), (1, 0, True), (1, 1, False)):
                if kind == 'in' and ret:
                    continue
                m = fresh(11 + j % 3, 16 * (npipe + 1))
                np_ = np + (5 if rank == npipe else 0)
                m.set('species', 'np', np_)
                mv = Mover(m, None)
                rr, e = rank_ranges(K, K.ps, 1, np_, npipe, [rank])
                first = rr[0][1]
                fl, ph = seg[K.ps]
                cap = sgn(m.pit({K.ps.rank: rank, K.ps.n: npipe}).ev(fl['max_nm'].val))
                if cap < 1:
                    continue
                if not room:
                    nm = cap
                out = outs_for(kind, j)
                prep(m, mv, [first], [out], [ret], rank, npipe)
                ev, pit = run_iter(K, K.ps, m, rank, npipe, 0, {ph['nm']: nm, ph['n_ignored']: 0})
                est, ecalls = advance_expect(m, pit, first, rank, npipe, out, ret, room, mv)
                w = compare_advance(K, m, mv, ev, est, ecalls, rank, npipe, first, out, ret, room, nm, ph, fl, K.ps)
                if w:
                    msgs.append(f'{"particle stays in its cell" if not out else "particle leaves its cell"}, pipeline {rank} of {npipe}: {w}')
    cats = {'push': None, 'deposit': None, 'handover': None}
    for w in msgs:
        k = 'handover' if 'mover' in w or 'move_p' in w else 'deposit' if ' a[' in w else 'push'
        cats[k] = cats[k] or w
    for k, w in cats.items():
        R('formula', f'advance-{k}', f'{name}/{cfg}', w is None, where, w or '')
    if not K.pv:
        return
    # --- vector == scalar --------------------------------------------------
    bad = None
    for rank, npipe in ((0, 1), (1, 2)):
        for trial, kind in enumerate(('in', 'mix', 'mix', 'out', 'mix')):
            for max_nm in (16 * 8, 8):
                m = fresh(11 + trial, max_nm)
                m.set('species', 'np', np)
                rr, e = rank_ranges(K, K.ps, 1, np, npipe, [rank])
                first = rr[0][1]
                items = [first + i for i in range(K.W)]
                mv = Mover(m, None)
                outs = [outs_for(kind, i) for i in range(K.W)]
                prep(m, mv, items, outs, [rnd.randrange(2) for i in items], rank, npipe)
                fl, ph = seg[K.ps]
                fv, pv = seg[K.pv]
                cap = sgn(m.pit({K.ps.rank: rank, K.ps.n: npipe}).ev(fl['max_nm'].val))
                nm0 = max(0, cap - 2) if trial % 2 else 0
                st, calls, cur = {}, [], {ph['nm']: nm0, ph['n_ignored']: 0}
                for j, it in enumerate(items):
                    ev, pit = run_iter(K, K.ps, m, rank, npipe, j, cur)
                    st.update(ev.st)
                    calls += [norm_call(m, c) for c in ev.calls]
                    cur = {q: ev.nxt[q] for q in cur}
                mv.after.clear()
                ev, pit = run_iter(K, K.pv, m, rank, npipe, 0, {pv['nm']: nm0, pv['n_ignored']: 0})
                vc = [norm_call(m, c) for c in ev.calls]
                for a in set(st) | set(ev.st):
                    if dec(m, a) == 'other memory':
                        continue
                    x, y = ev.st.get(a), st.get(a)
                    x = m.load(a) if x is None else x
                    y = m.load(a) if y is None else y
                    if x != y:
                        if DBG: print('DBG', dec(m,a), [outs[i] for i in range(K.W)], kern.sgn(x), kern.sgn(y), a in ev.st, a in st, m.load(a)==x, m.load(a)==y)
                        bad = bad or f'value of {dec(m, a)} differs from the scalar pipeline ({kind} lanes)'
                if vc != calls:
                    bad = bad or f'cell-crossing particles {[c[1][0] for c in vc]} are handed to move_p, the scalar pipeline hands over {[c[1][0] for c in calls]} (or with other displacement / accumulator)'
                for k in ('nm', 'n_ignored'):
                    if ev.nxt[pv[k]] != cur[ph[k]]:
                        bad = bad or f'the number of movers recorded ({k}) differs from the scalar pipeline'
                for r2, n2 in ((0, 1), (1, 3)):
                    a, b = m.pit({K.ps.rank: r2, K.ps.n: n2}), m.pit({K.pv.rank: r2, K.pv.n: n2})
                    for k in ('pm', 'max_nm'):
                        if a.ev(fl[k].val) != b.ev(fv[k].val):
                            bad = bad or f'mover segment ({k}) differs from the scalar pipeline'
    R('vector', 'lanes-equal-scalar', f'{name}/{cfg}', bad is None, K.where(K.pv), bad or '')


def compaction(K, R, cfg):
    """after the pipelines have finished, the host packs the movers of all segments, in order, at
    the front of the mover list and counts them"""
    name, S = K.name, K.mod.structs
    msz, ssz = S['particle_mover'].size, S['particle_mover_seg'].size
    tl = K.host.timeline
    w = [i for i, (k, e, d) in enumerate(tl) if k == 'wait']
    if not w:
        R('mover', 'compaction', f'{name}/{cfg}', False, K.where(), 'the pipelines are not waited for')
        return
    post = [e for k, e, d in tl[w[0] + 1:] if k != 'wait']
    argf = S['advance_p_pipeline_args']
    segaddr = None
    for e in kern.walk_stores(K.host.b.effects, None):
        o = K.g.const(K.g.sub(e.addr, K.d.args))
        if o == argf.off('seg'):
            segaddr = e.val
    if segaddr is None:
        raise Broken('advance_p: mover segment table not found')
    bad = None
    for counts in ([2, 0, 3, 1], [0, 0, 2], [4, 4, 4], [0, 0], [1, 2, 0, 0, 3, 1], [3, 3], [0, 2], [2, 0, 0, 5]):
        for caps in (4, 8):
            if max(counts) > caps:
                continue
            N = len(counts) - 1
            m = K.model(64, 11)
            pit = m.pit()
            sb = pit.ev(segaddr)
            m.mem[pit.ev(K.host.npipe_addr)] = N
            m.mem[(pit.ev(K.d.args) + argf.off('seg')) % P] = sb
            slots = {}
            for r, c in enumerate(counts):
                o = caps * r
                b = sb + ssz * r
                st = S['particle_mover_seg']
                m.mem[(b + st.off('pm')) % P] = (m.pmbase + msz * o) % P
                m.mem[(b + st.off('nm')) % P] = c
                m.mem[(b + st.off('max_nm')) % P] = caps
                m.mem[(b + st.off('n_ignored')) % P] = 0
                for i in range(caps):
                    slots[o + i] = (r, i)
            issue = []

            def oncall(pit, c, slots=slots, issue=issue, m=m):
                if c[0] in ('memcpy', 'memmove'):
                    d, s, n = sgn(c[1][0] - m.pmbase), sgn(c[1][1] - m.pmbase), sgn(c[1][2])
                    if d % msz or s % msz or n % msz or n < 0 or d < 0 or s < 0:
                        issue.append('the movers are not moved as whole movers')
                        return None
                    d, s, n = d // msz, s // msz, n // msz
                    tmp = [slots.get(s + i) for i in range(n)]
                    for i in range(n):
                        slots[d + i] = tmp[i]
                return None
            q = kern.Seq(m, oncall)
            q.run(m.pit(), post)
            want = [(r, i) for r, c in enumerate(counts) for i in range(c)]
            got = [slots.get(i) for i in range(len(want))]
            nm = sgn(m.get('species', 'nm'))
            if issue:
                bad = bad or issue[0]
            elif nm != len(want):
                bad = bad or f'{nm} movers are counted, the pipelines recorded {len(want)} (per pipeline {counts})'
            elif got != want:
                i = [a == b for a, b in zip(got, want)].index(False)
                bad = bad or f'mover {i} of the packed list is {got[i]} instead of (pipeline, index) {want[i]} (per pipeline {counts})'
    R('mover', 'compaction', f'{name}/{cfg}', bad is None, K.where(), bad or '')


def norm_call(m, c):
    """(callee, (particle, displacement), other arguments)"""
    name, args, am, e = c
    st = m.S['particle_mover']
    if kern.base_of(name).startswith('move_p'):
        f = lambda k: am.get((args[1] + st.off(k)) % P)
        n = f('i')
        return ('move_p', (sgn(n) if n is not None else None,) + tuple(f('disp' + a) for a in XYZ), (args[0],) + tuple(args[2:]))
    return (kern.base_of(name), tuple(args), ())


def compare_advance(K, m, mv, ev, est, ecalls, rank, npipe, n, out, ret, room, nm, ph, fl, pipe):
    st = m.S['particle_mover']
    pmo = m.pit({pipe.rank: rank, pipe.n: npipe}).ev(fl['pm'].val)
    exp = dict(est)
    if out and ret and room:
        for o in range(0, st.size, 4):
            exp[(pmo + st.size * nm + o) % P] = after_move(m, n, o)
    calls = [norm_call(m, c) for c in ev.calls]
    want = [('move_p', (c[0],) + c[1], (m.pbase, c[2], m.gp, m.get('species', 'q'))) for c in ecalls]
    if calls != want:
        if len(calls) != len(want):
            return f'{len(calls)} calls of move_p, {len(want)} expected'
        return 'move_p is called with the wrong particle, displacement, accumulator block, grid or charge'
    pi = m.pa(n, 'i')
    for a in set(exp) | set(ev.st):
        if dec(m, a) == 'other memory':
            continue
        x, y = ev.st.get(a), exp.get(a)
        if y == ('shr3',):
            # an unrecorded crossing must leave a valid voxel index behind
            if x is None:
                return 'voxel index of a particle without a mover is left encoded'
            if x != m.load(a) >> 3:
                return 'voxel index of a particle without a mover is not restored'
            continue
        x = m.load(a) if x is None else x
        y = m.load(a) if y is None else y
        if x != y:
            return f'value of {dec(m, a).replace("[%d]" % n, "[n]")} differs from the specification' + (' (mover)' if dec(m, a).startswith('pm') else '')
    exp_nm = nm + (1 if out and ret and room else 0)
    if ev.nxt[ph['nm']] != exp_nm:
        return 'the number of movers recorded is wrong'
    if ev.nxt[ph['n_ignored']] != (1 if out and ret and not room else 0):
        return 'the number of lost movers recorded is wrong'
    return None


# ---------------------------------------------------------------------------
ROLES = {'center_p': dict(species=0, interpolator_array=1), 'uncenter_p': dict(species=0, interpolator_array=1),
         'energy_p': dict(species=0, interpolator_array=1),
         'advance_p': dict(species=0, accumulator_array=1, interpolator_array=2),
         'accumulate_hydro_p': dict(hydro_array=0, species=1, interpolator_array=2)}
SPECS = {'center_p': (sp_center, 'a half step of the Boris rotation'), 'uncenter_p': (sp_uncenter, 'the inverse half step'),
         'energy_p': (sp_energy, 'the relativistic kinetic energy'), 'accumulate_hydro_p': (sp_hydro, 'the trilinear moment deposit')}


def all_particles(ctx, cfgs, cats, kernels=None):
    import par
    mods = {c: ctx.mod(c, norm=proj.NORMV) for c in cfgs}
    tasks = [(c, k) for k in (kernels or ROLES) for c in cfgs]

    def job(t):
        c, k = t
        K = PK(mods[c], k, ROLES[k])
        out = []
        R = lambda *r: out.append(r)
        if 'dist' in cats:
            partition(K, R, c)
        if k in SPECS and cats & {'formula', 'vector'}:
            simple_spec(K, R, c, *SPECS[k])
        if k == 'advance_p' and cats & {'formula', 'vector', 'mover'}:
            advance_spec(K, R, c)
        return out, [K.f.dname, K.ps.f.dname] + ([K.pv.f.dname] if K.pv else [])
    for t, r in zip(tasks, par.pmap(job, tasks)):
        if r[0] != 'ok':
            ctx.undecided(f'{t[1]}/{t[0]}', r[1])
            continue
        for cat, rule, inst, ok, where, msg in r[1][0]:
            if cat in cats:
                ctx.expect(ok, rule, inst, where, msg)
        for f in r[1][1]:
            ctx.saw(f)
