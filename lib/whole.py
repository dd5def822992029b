"""Whole sweeps: a host function with its pipelines (dispatched through the thread dispatcher or
the OpenMP loop) bound together as one ordered value graph and evaluated on concrete grid shapes
with algebraically generic data; pipelines run in both extreme schedules (at dispatch in rank
order; at the wait in reverse order)."""
import random
import vg, kern, absev, bndan, proj
from fractions import Fraction as Q
from vg import P, Graph
from kern import sgn, Field, base_of
from absev import Abs, Aborted
from bndan import BM, inv, DIRS, bidx
from proj import Broken


class Block(Field):
    """array of per-voxel structs replicated `n` times with a stride (accumulators, hydro)"""


class WM(BM):
    """world model: grid, fields, interpolators, accumulators, hydro, dispatcher"""

    def __init__(self, g, mod, dims, seed, npipe=3, **k):
        BM.__init__(self, g, mod, dims, seed, **k)
        h = self.rnd.h
        self.np_ = npipe
        S = self.S
        to = kern.thread_offs(mod)
        self.disp, self.wait = h(9, 1), h(9, 2)
        if to:
            t = h(3, vg.crc('thread'))
            od, ow, on = to
            self.mem[(t + od) % P] = self.disp
            self.mem[(t + ow) % P] = self.wait
            self.mem[(t + on) % P] = npipe
            s = h(3, vg.crc('serial'))
            self.mem[(s + on) % P] = 1
        if 'omp_helper' in mod.globals:
            self.mem[h(3, vg.crc('omp_helper'))] = npipe
        self.ia, self.ib, self.aa, self.ab_ = (h(802, i) for i in range(4))
        if 'interpolator_array' in S:
            s = S['interpolator_array']
            self.mem[(self.ia + s.off('i')) % P] = self.ib
            self.mem[(self.ia + s.off('g')) % P] = self.gp
            self.I = Field(self, self.ib, S['interpolator'], dims, 'fi')
        self.stride = (self.nv + 1) // 2 * 2
        if 'accumulator_array' in S:
            s = S['accumulator_array']
            self.mem[(self.aa + s.off('a')) % P] = self.ab_
            self.mem[(self.aa + s.off('g')) % P] = self.gp
            self.mem[(self.aa + s.off('n_pipeline')) % P] = npipe
            self.mem[(self.aa + s.off('stride')) % P] = self.stride
            st = S['accumulator']
            self.A = [Field(self, (self.ab_ + r * self.stride * st.size) % P, st, dims, 'a') for r in range(npipe + 1)]
        if 'hydro_array' in S:
            s = S['hydro_array']
            self.mem[(self.ha + s.off('n_pipeline')) % P] = npipe
            st = S['hydro']
            self.Hs = [Field(self, (self.hb + r * self.stride * st.size) % P, st, dims, 'h') for r in range(npipe + 1)]
        for k_ in ('eps0', 'dV', 'r8V', 'rdt'):
            try:
                o = self.gs.off(k_)
            except Exception:
                continue
            self.setf(self.gp + o, Q(random.Random(seed + len(k_)).randrange(3, 40), 8))
        E = {k_: proj.enum_const(mod, k_) for k_ in ('anti_symmetric_fields', 'symmetric_fields', 'pmc_fields', 'absorb_fields')}
        self.E = E

    def freeze(self):
        """remember the initial memory"""
        snap = dict(self.mem)

        def mem0(a):
            a %= P
            return snap[a] if a in snap else self.rnd.h(1, 0, a)
        self.mem0 = mem0

    def where(self, a):
        for nm, arr in (('f', [self.F]), ('fi', [getattr(self, 'I', None)]), ('a', getattr(self, 'A', [])), ('h', getattr(self, 'Hs', []))):
            for r, x in enumerate(arr):
                if x is None:
                    continue
                d = x.decode(a)
                if d:
                    return (f'{nm}' + (f'[block {r}]' if len(arr) > 1 else '') + f'({d[1]},{d[2]},{d[3]}).{d[0]}')
        return None


class Whole:
    def __init__(self, mod, m, late=False, stub=None, limit=1 << 14):
        self.mod, self.m, self.late, self.user = mod, m, late, stub
        self.pending = []
        self.waits = 0
        self.issues = []
        self.ab = Abs(mod, m, self.stub, limit)

    def stub(self, ab, pit, callee, args, e):
        m = self.m
        if isinstance(callee, tuple) and callee[0] == 'ind':
            if callee[1] == m.disp:
                fn = ab.fnname(args[0])
                if not isinstance(fn, str):
                    raise Broken('dispatched pipeline is not a function constant')
                if self.pending and self.late:
                    self.issues.append('a pipeline is dispatched before the previous one was waited for')
                if sgn(args[3]) not in (0, 1):
                    raise Broken(f'argument stride {sgn(args[3])}')
                calls = [(fn, [(args[1] + r * sgn(args[3]) * sgn(args[2])) % P, r, m.np_]) for r in range(m.np_)]
                self.pending = calls
                if not self.late:
                    self.go(calls)
                return 0
            if callee[1] == m.wait:
                if self.late:
                    self.go(reversed(self.pending))
                self.pending = []
                self.waits += 1
                return 0
        if self.user:
            r = self.user(ab, pit, callee, args, e)
            if r is not NotImplemented:
                return r
        nm = base_of(callee) if isinstance(callee, str) else ''
        if nm.startswith('mp_allsum_d'):
            self.allsum = getattr(self, 'allsum', 0) + 1
            for i in range(sgn(args[2])):
                ab.put(pit, args[1] + 8 * i, m.load(args[0] + 8 * i), 'double', e)
            return 0
        return NotImplemented

    def go(self, calls):
        for fn, a in calls:
            self.ab.call(self.mod.func(fn), a)

    def run(self, f, args):
        r = self.ab.call(f, args)
        if self.pending:
            self.issues.append('the function returns without waiting for its pipelines')
            if self.late:
                self.go(reversed(self.pending))
        return r


def compare(m, want, log, known=None):
    """first disagreement between the expected memory (address -> value) and the evaluated one;
    locations outside the arrays (locals, argument blocks) are ignored"""
    touched = {}
    for a, v, e in log:
        touched[a] = e
    for a in sorted(set(touched) | set(want)):
        w = want[a] if a in want else m.mem0(a)
        if m.load(a) != w:
            d = m.where(a) or (known and known(a))
            if d is None:
                if a in want:
                    d = 'result'
                else:
                    continue
            return d + (' is not set' if a not in touched else ' gets the wrong value' if a in want else ' must not change'), touched.get(a)
    return None


class Heap:
    """stand-in of the allocation routines: fresh blocks of known size"""

    def __init__(self, m):
        self.m = m
        self.blocks = {}       # address -> (size, align, what)
        self.free = []
        self.n = 0
        self.issues = []

    def alloc(self, size, what='', align=None):
        self.n += 1
        a = ((1 << 44) + (self.n << 28)) % P
        self.blocks[a] = (size, align, what)
        return a

    def stub(self, ab, pit, callee, args, e):
        nm = callee if isinstance(callee, str) else ''
        if 'util_malloc_aligned' in nm or 'util_malloc' in nm:
            n = sgn(args[2])
            a = self.alloc(n, '', sgn(args[3]) if 'aligned' in nm else None) if n > 0 else 0
            ab.put(pit, args[1], a, 'ptr', e)
            return 0
        if 'util_free' in nm:
            p = self.m.load(args[0]) if args[0] in self.m.mem or True else 0
            if args[0] in self.m.mem:
                p = self.m.mem[args[0]]
                if p and p not in self.blocks and p not in self.free:
                    pass
                if p in self.free:
                    self.issues.append('a block is freed twice')
                elif p in self.blocks:
                    al = self.blocks[p][1] is not None
                    if al != ('aligned' in nm):
                        self.issues.append('a block is freed by the other kind of free than it was allocated with')
                    self.free.append(p)
            ab.put(pit, args[0], 0, 'ptr', e)
            return 0
        return NotImplemented

    def overrun(self, log):
        """a write near, but outside of, an allocated block"""
        bs = sorted(self.blocks)
        for a, v, e in log:
            for b in bs:
                o = sgn(a - b)
                n = self.blocks[b][0]
                if n <= o < n + 65536 or -65536 < o < 0:
                    return f'a write {"beyond" if o > 0 else "before"} an allocated block of {n} bytes (offset {o})', e
        return None
