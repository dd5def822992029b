"""Pipelined grid kernels: bind host and pipeline value graphs together, recover
the voxel cursor of a pipeline, the work distribution, the iteration domains of
the host's loop nests, and the memory transfer of every iteration."""
import re
from itertools import product
import vg
from vg import P, Mem, Build, Graph, Pit, walk
from proj import Broken

SIZES = [(9, 7, 5), (6, 9, 8), (401, 397, 203), (2, 3, 300), (300, 3, 2), (3, 300, 2)]
NPIPES = (1, 2, 3, 5, 17)
LONG = [(140, 2, 2), (2, 140, 2), (2, 2, 140)]   # longer than any 8-bit counter, thin to keep it cheap
MED = [(5, 4, 3), (3, 5, 4)]
TINY = [(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (1, 3, 2), (2, 2, 3), (3, 1, 2)]


class Model:
    """small model: concrete grid extents, everything else algebraically generic"""

    def __init__(self, g, seed):
        self.g = g
        self.seed = seed
        self.mem = {}
        self.memfn = []
        self.env = {}

    def pit(self, env=None, **k):
        e = dict(self.env)
        if env:
            e.update(env)
        p = Pit(self.g, self.seed, e, hook=self.hook, **k)
        return p

    def hook(self, pit, x, op, pl, ar):
        if op == 'ld':
            a = pit.v[ar[0]]
            if pit.reads is not None:
                pit.reads.add(a)
            r = self.mem.get(a)
            if r is None:
                for fn in self.memfn:
                    r = fn(a)
                    if r is not None:
                        break
            return r
        return None

    def load(self, a):
        a %= P
        r = self.mem.get(a)
        if r is not None:
            return r
        for fn in self.memfn:
            r = fn(a)
            if r is not None:
                return r
        return self.rnd.h(1, 0, a)

    @property
    def rnd(self):
        if not hasattr(self, '_rnd'):
            self._rnd = Pit(self.g, self.seed)
        return self._rnd


def sgn(v):
    v %= P
    return v - P if v > P // 2 else v


class Field:
    """element array with per-voxel structs: address <-> (member,x,y,z)"""

    def __init__(self, model, base, struct, dims, name='f', lo=0):
        self.m = model
        self.base = base
        self.st = struct
        self.n = dims
        self.name = name
        self.nv = (dims[0] + 2) * (dims[1] + 2) * (dims[2] + 2)

    def vox(self, x, y, z):
        return x + (self.n[0] + 2) * (y + (self.n[1] + 2) * z)

    def addr(self, member, x, y, z, k=0):
        return (self.base + self.st.size * self.vox(x, y, z) + self.st.off(member) + 4 * k) % P

    def get(self, member, x, y, z, k=0):
        return self.m.load(self.addr(member, x, y, z, k))

    def decode(self, a):
        d = sgn(a - self.base)
        if not 0 <= d < self.st.size * self.nv:
            return None
        v, off = divmod(d, self.st.size)
        mb = self.st.field_at(off)
        nm = mb[0] if mb else f'+{off}'
        if mb and off != mb[1]:
            nm += f'[{(off - mb[1]) // 4}]'
        x = v % (self.n[0] + 2)
        y = v // (self.n[0] + 2) % (self.n[1] + 2)
        z = v // ((self.n[0] + 2) * (self.n[1] + 2))
        return nm, x, y, z


def base_of(name):
    return re.sub(r'^_Z\d+', '', name or '')


class Dispatch:
    pass


def thread_offs(mod):
    """offsets of dispatch / wait inside the thread dispatcher object"""
    for s in mod.allstructs:
        if s.get('dispatch') and s.get('wait') and s.get('n_pipeline'):
            return s.off('dispatch'), s.off('wait'), s.off('n_pipeline')
    return None


class Host:
    """a host function that dispatches one or more pipelines"""

    def __init__(self, g, mod, f, args=None, extra_clobber=None):
        self.g, self.mod, self.f = g, mod, f
        to = thread_offs(mod)
        self.omp = to is None
        if self.omp:
            if not any(n == 'omp_helper' for n in mod.globals):
                raise Broken('no pipeline dispatcher found')
            self.dispatch_addr = self.wait_addr = None
            self.npipe_addr = g.ptr(g.mk('global', 'omp_helper'))
        else:
            self._thr(g, mod, to)
        self._rest(g, mod, f, args, extra_clobber)

    def _thr(self, g, mod, to):
        od, ow, on = to
        tg = [n for n, gl in mod.globals.items() if n == 'thread']
        if not tg:
            raise Broken('global thread dispatcher not found')
        tn = g.ptr(g.mk('global', 'thread'))
        self.dispatch_addr = g.add(tn, g.c(od))
        self.wait_addr = g.add(tn, g.c(ow))
        self.npipe_addr = g.add(tn, g.c(on)) if on else tn

    def _rest(self, g, mod, f, args, extra_clobber):
        def clob(callee, e):
            k = self.kind(e)
            if k in ('dispatch', 'scalar'):
                return 'none' if self.omp else 'keep'
            if extra_clobber:
                return extra_clobber(callee, e)
            return False
        self.b = Build(g, f, args=args, clobber=clob)
        self.disp = []
        self.timeline = []
        self._line(self.b.effects)

    def isld(self, n, addr):
        op, pl, ar = self.g.nodes[n]
        return op == 'ld' and ar[0] == addr

    def kind(self, e):
        if isinstance(e.callee, tuple):
            n = e.callee[1]
            if self.isld(n, self.dispatch_addr):
                return 'dispatch'
            if self.isld(n, self.wait_addr):
                return 'wait'
            return 'ind'
        fr = self.mod._raw.get(e.callee)
        if fr is not None and len(fr['args']) == 3 and [a[1] for a in fr['args']][1:] == ['i32', 'i32'] and fr['args'][0][1] == 'ptr' and '_pipeline' in e.callee:
            return 'scalar'
        return 'call'

    def _line(self, effects):
        for e in effects:
            if e.kind == 'call':
                k = self.kind(e)
                if k == 'dispatch':
                    d = Dispatch()
                    fn = self.g.nodes[e.args[0]]
                    if fn[0] != 'fn':
                        raise Broken(f'{self.f.dname}: dispatched pipeline is not a function constant')
                    d.fn = fn[1]
                    d.args = e.args[1]
                    d.size = e.args[2]
                    d.stride = e.args[3]
                    d.e = e
                    d.argmem = e.argmem
                    d.scalar = None
                    self.disp.append(d)
                    self.timeline.append(('dispatch', e, d))
                elif k == 'scalar':
                    if self.disp:
                        self.disp[-1].scalar = e
                    self.timeline.append(('scalar', e, None))
                else:
                    self.timeline.append((k, e, None))
            elif e.kind == 'loop' and self.omp and self._omp(e):
                pass
            elif e.kind == 'loop':
                self.timeline.append(('loop', e, None))
            elif e.kind == 'store':
                self.timeline.append(('store', e, None))
            elif e.kind == 'abort':
                self.timeline.append(('abort', e, None))


    def exec_issue(self, d):
        """the dispatch of one pipeline: all ranks 0..N-1 through the dispatcher, the straggler
        rank N by the host, on the same argument block; returns a description of what is wrong"""
        g = self.g
        if d.scalar is None:
            return 'the straggler work (rank N_PIPELINE) is executed by nobody'
        s = d.scalar
        if d.stride is None or g.const(d.stride) is None:
            return None
        st = g.const(d.stride)
        if st == 0 and s.args[0] != d.args:
            return 'the straggler call works on a different argument block than the dispatched pipelines'
        if not (self.isld(s.args[1], self.npipe_addr) and self.isld(s.args[2], self.npipe_addr)):
            return 'the straggler call is not made with rank == count == the number of pipelines'
        if s.guard != d.e.guard:
            return 'straggler call and dispatch are executed under different conditions'
        return None

    def _omp(self, e):
        """OpenMP dispatch: for(id=0; id<N_PIPELINE; id++) pipeline( args, id, N_PIPELINE )"""
        cs = [x for x in e.loop.effects]
        if len(cs) != 1 or cs[0].kind != 'call' or self.kind(cs[0]) != 'scalar':
            return False
        c = cs[0]
        g = self.g
        k = e.loop.k
        if not (e.loop.trips is not None and self.isld(e.loop.trips, self.npipe_addr) and c.args[1] == k and c.args[2] == e.loop.trips and k not in g.deps(c.args[0])):
            return False
        d = Dispatch()
        d.fn = c.callee
        d.args = c.args[0]
        d.size = None
        d.stride = g.c(0)
        d.e = e
        d.argmem = c.argmem
        d.scalar = None
        self.disp.append(d)
        self.timeline.append(('dispatch', e, d))
        self.timeline.append(('wait', e, None))
        return True


class Pipe:
    """a pipeline function bound to its host's argument block"""

    def __init__(self, g, mod, fname, host=None, disp=None, tag=None, clobber=None):
        self.g, self.mod = g, mod
        f = mod.func(fname)
        if f is None:
            raise Broken(f'pipeline function {fname} not found')
        self.f = f
        self.rank = g.mk('sym', 'pipeline_rank')
        self.n = g.mk('sym', 'n_pipeline')
        mem = Mem()
        self.argp = g.ptr(g.mk('sym', ('pargs', host.f.dname if host else f.name)))
        if disp is not None:
            r = g.rootof(disp.args)
            if disp.argmem and r in disp.argmem:
                d0 = g.sub(disp.args, r)
                for off, v in disp.argmem[r].items():
                    ty, sz = 'i64', 8
                    a = g.add(self.argp, g.sub(off, d0))
                    mem.d[a] = (v, None)
                self.bound = True
            else:
                self.argp = disp.args
                self.bound = False
        # sizes of the stored members come from the host's stores
        if disp is not None:
            for e in walk_stores(host.b.effects, g.rootof(disp.args)):
                a = g.add(self.argp, g.sub(e.addr, disp.args))
                if a in mem.d:
                    mem.d[a] = (mem.d[a][0], (e.sz, e.ity))
            for a in list(mem.d):
                if mem.d[a][1] is None:
                    mem.d[a] = (mem.d[a][0], (4, 'i32'))
        self.b = Build(g, f, args={0: self.argp, 1: self.rank, 2: self.n}, mem=mem, tag=tag or f.name, clobber=clobber)
        self.loops = [e for e in self.b.effects if e.kind == 'loop']

    def main(self):
        """the work loop: the outermost loop with memory effects or reductions"""
        ls = [e for e in self.loops if any(True for x, _ in walk(e.loop.effects) if x.kind in ('store', 'call')) or any(p['t'] in ('float', 'double') for c, i, n, p in e.loop.phis.values())]
        return ls


def walk_stores(effects, root):
    for e, ls in walk(effects):
        if e.kind == 'store':
            yield e


# ---------------------------------------------------------------------------
class Cursor:
    """voxel cursor of a pipeline work loop, recovered and verified inductively"""

    def __init__(self, pipe, eff, W, setup, sizes=SIZES, scalar=None):
        """setup(dims) -> Model ; W: voxels per iteration; scalar: Cursor of the straggler kernel"""
        self.pipe, self.eff, self.L, self.W = pipe, eff, eff.loop, W
        self.setup = setup
        self.scalar = scalar
        self.issues = []       # (rule, message)
        self.nodes = {}
        L = self.L
        if L.trips is None:
            raise Broken(f'{pipe.f.dname}: trip count of the work loop not recovered')
        self.acc = []           # reductions
        self.cur = []           # (pid, node, init, next, type)
        for pid, (c, i, n, p) in L.phis.items():
            if pid in L.solved:
                continue
            if p['t'] in ('float', 'double') or p['t'].startswith('<'):
                self.acc.append((pid, c, i, n, p))
            else:
                self.cur.append((pid, c, i, n, p))
        self.offs = None
        data = [self.collect(d) for d in sizes]
        self.fit(sizes, data)
        self.sizes = sizes

    def where(self):
        return f'{self.pipe.f.file}:{self.pipe.f.line}'

    def collect(self, dims):
        m = self.setup(dims)
        out = []
        for n in NPIPES:
            ranks = []
            st = 0
            for p in range(n + 1):
                if p == n and self.W > 1:
                    break
                env = {self.pipe.rank: p, self.pipe.n: n}
                pit = m.pit(env)
                t = pit.small(pit.ev(self.L.trips))
                g = pit.ev(self.eff.guard)
                if t is None:
                    raise Broken(f'{self.pipe.f.dname}: trip count not concrete in small model')
                t = max(t, 0) if g else 0
                ini = {pid: pit.ev(i) for pid, c, i, nx, ph in self.cur}
                ranks.append((p, t * self.W, ini))
            out.append((n, ranks))
        return m, out

    def fit(self, sizes, data):
        # totals (the straggler of a vector kernel is the scalar kernel's rank n)
        tots = []
        for d, (m, per) in zip(sizes, data):
            ts = set()
            for n, ranks in per:
                t = sum(r[1] for r in ranks)
                if self.W > 1:
                    t += self.scalar.straggler(d, n)
                ts.add(t)
            if len(ts) != 1:
                self.issues.append(('partition', f'work is not partitioned: totals over different pipeline counts differ {sorted(ts)}'))
                self.ok = False
                return
            tots.append(ts.pop())
        # per-pipeline counts are multiples of the vector width (checked by construction: trips*W)
        cands = []
        rng = (0, 1, 2, -1)
        for dx, dy, dz in product(rng, rng, rng):
            if all((a + dx) * (b + dy) * (c + dz) == t and a + dx > 0 and b + dy > 0 and c + dz > 0 for (a, b, c), t in zip(sizes, tots)):
                cands.append((dx, dy, dz))
        # starting positions
        for off in cands:
            r = self.tryfit(off, sizes, data)
            if r:
                self.offs = off
                self.lo = r[0]
                self.roles = r[1]
                self.ok = True
                self.counts = [[(n, [(p, c) for p, c, i in ranks]) for n, ranks in per] for m, per in data]
                return
        self.ok = False
        self.issues.append(('partition', f'the start positions of the pipelines do not continue where the previous pipeline stopped (voxel totals {tots} for grids {sizes})'))

    def straggler(self, dims, n):
        for d, (m, per) in zip(self.sizes, [self.collect(d) for d in self.sizes]):
            if d == dims:
                for nn, ranks in per:
                    if nn == n:
                        return ranks[n][1]
        m, per = self.collect(dims)
        for nn, ranks in per:
            if nn == n:
                return ranks[n][1]

    def box(self, dims):
        return [(self.lo[j], self.lo[j] + dims[j] + self.offs[j] - 1) for j in range(3)]

    def tryfit(self, off, sizes, data):
        roles = {}
        # role of every cursor variable: 'x','y','z' or ('lin',stride)
        lo = [None] * 3
        samples = []
        for d, (m, per) in zip(sizes, data):
            X = [a + o for a, o in zip(d, off)]
            for n, ranks in per:
                st = 0
                for p, c, ini in ranks:
                    if c > 0:
                        r = (st % X[0], st // X[0] % X[1], st // (X[0] * X[1]))
                        samples.append((d, m, st, r, ini))
                    st += c
        for pid, c, i, n, ph in self.cur:
            if ph['t'] == 'ptr':
                continue
            for ax in range(3):
                ds = set(sgn(ini[pid] - r[ax]) for d, m, st, r, ini in samples)
                if len(ds) == 1:
                    v = ds.pop()
                    if abs(v) < 4 and ('xyz'[ax] not in roles.values()):
                        roles[pid] = 'xyz'[ax]
                        lo[ax] = v
                        break
        if None in lo:
            return None
        return lo, roles

    def state(self, dims, m, pos):
        """environment for a cursor standing at pos: every cursor variable gets the value the
        recovered invariant assigns to it"""
        env = {}
        return env

    def strides(self):
        """voxel stride of every cursor variable other than x,y,z (None: not voxel-linear)"""
        if hasattr(self, '_str'):
            return self._str
        dims = self.sizes[0]
        m = self.setup(dims)
        out = {}
        base = {}
        vox = lambda x, y, z: x + (dims[0] + 2) * (y + (dims[1] + 2) * z)
        p0 = tuple(self.lo)
        X = [a + o for a, o in zip(dims, self.offs)]
        for nn in NPIPES:
            st = 0
            for p in range(nn + 1):
                if p == nn and self.W > 1:
                    break
                pp = m.pit({self.pipe.rank: p, self.pipe.n: nn})
                t = pp.small(pp.ev(self.L.trips)) * self.W
                if t > 0:
                    r = (st % X[0] + p0[0], st // X[0] % X[1] + p0[1], st // (X[0] * X[1]) + p0[2])
                    dv = vox(*r) - vox(*p0)
                    for pid, c, i, n, ph in self.cur:
                        v = pp.ev(i)
                        if dv == 0:
                            base.setdefault(pid, v)
                            if base[pid] != v:
                                out[pid] = None
                            continue
                        s = sgn(v - base[pid])
                        q = s // dv if s % dv == 0 else None
                        if out.setdefault(pid, q) != q:
                            out[pid] = None
                st += t
        self._str = out
        return out

    def lin(self, dims, m):
        """{pid: (base, stride, p0)}: value of the cursor variable at position (x,y,z) is
        base + stride*(VOXEL(x,y,z)-VOXEL(p0))"""
        ss = self.strides()
        out = {}
        pit = m.pit({self.pipe.rank: 0, self.pipe.n: 1})
        for pid, c, i, n, ph in self.cur:
            if pid in self.roles:
                continue
            if ss.get(pid) is None:
                return pid, None
            out[pid] = (pit.ev(i), ss[pid], tuple(self.lo))
        return out

    def env_at(self, dims, m, pos, lin, extra=None):
        vox = lambda x, y, z: x + (dims[0] + 2) * (y + (dims[1] + 2) * z)
        env = {self.pipe.rank: 0, self.pipe.n: 1, self.L.k: 0, self.L.cont: 1}
        for pid, c, i, n, ph in self.cur:
            if pid in self.roles:
                env[c] = pos['xyz'.index(self.roles[pid])] % P
            else:
                b, s, p0 = lin[pid]
                env[c] = (b + s * (vox(*pos) - vox(*p0))) % P
        for pid, c, i, n, ph in self.acc:
            for q in (c if isinstance(c, tuple) else (c,)):
                env[q] = 0
        if extra:
            env.update(extra)
        return env

    def positions(self, dims):
        bx = self.box(dims)
        return [(x, y, z) for z in range(bx[2][0], bx[2][1] + 1) for y in range(bx[1][0], bx[1][1] + 1) for x in range(bx[0][0], bx[0][1] + 1)]

    def verify_step(self, dims):
        """inductive step of the cursor invariant, for every position of the box"""
        m = self.setup(dims)
        lin = self.lin(dims, m)
        if isinstance(lin, tuple):
            self.issues.append(('cursor', f'cursor variable {lin[0]} does not start at a voxel-linear position for every pipeline'))
            return False
        ps = self.positions(dims)
        good = True
        for idx, pos in enumerate(ps):
            if idx + self.W >= len(ps):
                break
            nx = ps[idx + self.W]
            pit = m.pit(self.env_at(dims, m, pos, lin))
            want = self.env_at(dims, m, nx, lin)
            for pid, c, i, n, ph in self.cur:
                v = pit.ev(n)
                if v != want[c] % P:
                    what = self.roles.get(pid, 'pointer')
                    loc = self.pipe.f.loc(self.pipe.f.ins[pid]) if pid in self.pipe.f.ins else ''
                    self.issues.append(('cursor', f'after voxel {pos} of grid {dims} the {what} cursor does not move to voxel {nx} (off by {sgn(v - want[c])})'))
                    good = False
            if not good:
                break
        return good

    def transfer(self, dims, m, pos, lin, reads=None, effects=None):
        """memory transfer of one iteration at pos: {address: value}"""
        pit = m.pit(self.env_at(dims, m, pos, lin))
        if reads is not None:
            pit.reads = reads
        out = {}
        stores(pit, effects if effects is not None else self.L.effects, out)
        return pit, out

    def increments(self, dims, m, pos, lin):
        pit = m.pit(self.env_at(dims, m, pos, lin))
        r = []
        for pid, c, i, n, ph in self.acc:
            if isinstance(n, tuple):
                r.append(sum(pit.ev(q) for q in n) % P)
            else:
                r.append(pit.ev(n))
        return r


def unsolved(L):
    return L.single is None and any(p not in L.solved for p in L.phis if L.phis[p][3]['t'] not in ('float', 'double'))


def loop_env(pit, L, k):
    e = {L.k: k}
    if L.single:
        for a, b in L.single.items():
            e[a] = pit.ev(b)
    return e


def fval(pit, n):
    """value stored, with raw float bit patterns read back as the float they encode"""
    v = pit.ev(n)
    return pit.binv.get(v, v)


def stores(pit, effects, out, where=None, reads=None, depth=0):
    """evaluate the stores of an effect list into out (address -> value)"""
    for e in effects:
        if e.kind == 'store':
            if not pit.ev(e.guard):
                continue
            a = pit.ev(e.addr)
            v = fval(pit, e.val)
            out[a] = v
            if where is not None:
                where.setdefault(a, []).append(e)
        elif e.kind == 'loop':
            if not pit.ev(e.guard):
                continue
            L = e.loop
            t = pit.small(pit.ev(L.trips)) if L.trips is not None else None
            if t is None or t > 4096 or unsolved(L):
                raise Broken('inner loop without a recovered iteration domain')
            for k in range(max(t, 0)):
                stores(pit.child(loop_env(pit, L, k)), L.effects, out, where, reads, depth + 1)


class Site:
    __slots__ = ('addr', 'val', 'e', 'reads', 'phase')

    def __init__(self, addr, val, e, reads, phase):
        self.addr, self.val, self.e, self.reads, self.phase = addr, val, e, reads, phase


def domain(pit, effects, phase, want_reads=True):
    """all store instances of (host) loop nests: the iteration domains are the recovered
    affine ranges, evaluated in the small model"""
    for e in effects:
        if e.kind == 'store':
            if not pit.ev(e.guard):
                continue
            if want_reads:
                p2 = pit.child(pit.env0)
                p2.reads = set()
                a = p2.ev(e.addr)
                v = fval(p2, e.val)
                yield Site(a, v, e, p2.reads, phase)
            else:
                yield Site(pit.ev(e.addr), fval(pit, e.val), e, None, phase)
        elif e.kind == 'loop':
            if not pit.ev(e.guard):
                continue
            L = e.loop
            if L.trips is None:
                raise Broken('host loop without a recovered iteration domain')
            t = pit.small(pit.ev(L.trips))
            if t is None or t > 100000:
                raise Broken('host loop trip count is not an integer expression of the grid extents')
            if unsolved(L):
                raise Broken('host loop with unrecovered induction variables')
            for k in range(max(t, 0)):
                yield from domain(pit.child(loop_env(pit, L, k)), L.effects, phase, want_reads)


# ---------------------------------------------------------------------------
class Seq:
    """sequential evaluation of an effect list in the small model: loop iterations in order,
    stores update the model memory, calls are recorded"""

    def __init__(self, m, oncall=None, limit=4096):
        self.m, self.oncall, self.limit = m, oncall, limit
        self.calls = []
        self.log = []
        self.mus = {}

    def run(self, pit, effects):
        for e in effects:
            if not pit.ev(e.guard):
                continue
            if e.kind == 'store':
                a, v = pit.ev(e.addr), fval(pit, e.val)
                self.m.mem[a] = v
                self.log.append((a, v, e))
            elif e.kind == 'call':
                am = {}
                for root, d in (e.argmem or {}).items():
                    for o, v in d.items():
                        am[(pit.ev(root) + pit.ev(o)) % P] = fval(pit, v)
                c = (e.callee, [pit.ev(a) if a is not None and not isinstance(a, tuple) else None for a in e.args], am, e)
                self.calls.append(c)
                if self.oncall:
                    v = self.oncall(pit, c)
                    if v is not None and isinstance(e.res, int):
                        pit.v[e.res] = v % P
            elif e.kind == 'loop':
                self.loop(pit, e)
            elif e.kind == 'abort':
                return False
        return True

    def loop(self, pit, e):
        L = e.loop
        t = pit.small(pit.ev(L.trips)) if L.trips is not None else None
        if t is None or t > self.limit:
            raise Broken('loop without a recovered trip count')
        cur = {}
        for pid, (c, i, nx, ph) in L.phis.items():
            if pid in L.solved:
                continue
            for q, x in zip(c if isinstance(c, tuple) else (c,), i if isinstance(i, tuple) else (i,)):
                cur[q] = pit.ev(x)
        for k in range(max(0, t)):
            env = loop_env(pit, L, k)
            env.update(cur)
            env[L.cont] = 1
            p2 = pit.child(env)
            self.run(p2, L.effects)
            nxt = {}
            for pid, (c, i, nx, ph) in L.phis.items():
                if pid in L.solved:
                    continue
                for q, x in zip(c if isinstance(c, tuple) else (c,), nx if isinstance(nx, tuple) else (nx,)):
                    nxt[q] = p2.ev(x)
            cur = nxt
        return cur
