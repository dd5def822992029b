"""checkpoint / restore round trip: the whole object graph, built by the repository's constructors,
written through the repository's checkpoint service to an abstract stream and read back, everything
evaluated as ordered value graphs; the restored object graph must be isomorphic to the original.
Addresses (heap, functions, globals) that reach the stream are replaced by stale ones, as they
would be in another process."""
import random
import vg, kern, proj
from fractions import Fraction as Q
from vg import P, Graph
from kern import sgn, base_of
from absev import AModel, Abs, Aborted
from whole import Heap
from proj import Broken

KINDS = {}


class CM(AModel):
    def __init__(self, g, mod, seed, rank, nworld, npipe):
        AModel.__init__(self, g, seed)
        self.approx = {0: 0.0}
        self.fty = {}
        self.mod, self.S = mod, mod.structs
        self.heap = Heap(self)
        self.statics(mod)
        h = self.rnd.h
        self.rank, self.nworld, self.npipe = rank, nworld, npipe
        self.gaddr = {}
        for n in mod.globals:
            self.gaddr[h(3, vg.crc(n))] = n
        self.fns = {h(4, vg.crc(n)): n for n in mod._raw}
        for n, v in (('_world_size', nworld), ('_world_rank', rank)):
            self.mem[h(3, vg.crc(n))] = v
        for n, gl in mod.globals.items():
            i = gl.get('init')
            if i and i[0] == 'g' and i[1] in mod.globals:
                self.mem[h(3, vg.crc(n))] = h(3, vg.crc(i[1]))
        to = kern.thread_offs(mod)
        if to:
            self.mem[(h(3, vg.crc('thread')) + to[2]) % P] = npipe
            self.mem[(h(3, vg.crc('serial')) + to[2]) % P] = 1
        if 'omp_helper' in mod.globals:
            self.mem[h(3, vg.crc('omp_helper'))] = npipe
        self.files = {}
        self.pos = 0
        self.nstr = 0
        self.strs = {}
        self.issues = []
        self.types = {}       # address -> struct name
        self.raw_addr = []

    def geti(self, a):
        v = self.load(a % P)
        return self.pit()._bits(v) if self.fty.get(a % P) else v

    def cstr(self, a):
        """C string at an address"""
        n = self.gaddr.get(a % P)
        if n is not None and n.startswith('.str'):
            c = self.mod.globals[n].get('init')
            if c and c[0] == 'data' and c[1] == 'str':
                return c[2].rstrip('\0')
            if c and c[0] == 'data' and c[1] == 'seq':
                return ''.join(chr(x[1] & 255) for x in c[2]).rstrip('\0')
            return n
        out = ''
        for i in range(4096):
            if (a + i) % P not in self.mem:
                raise Broken(f'a string at an unknown place ({n})')
            c = sgn(self.mem[(a + i) % P])
            if c == 0:
                return out
            out += chr(c & 255)
        raise Broken('a string without end')

    def newstr(self, s):
        a = self.strs.get(s)
        if a is None:
            self.nstr += 1
            a = self.strs[s] = ((1 << 55) + (self.nstr << 16)) % P
            self.setstr(a, s)
        return a

    def setstr(self, a, s):
        for i, c in enumerate(s + '\0'):
            self.mem[(a + i) % P] = ord(c)
            self.fty.pop((a + i) % P, None)

    def block(self, a):
        """block containing an address"""
        n = sgn(a)
        if n < 1 << 44 or n >= 1 << 55:
            return None
        b = n >> 28 << 28
        if b in self.heap.blocks and n - b < max(1, self.heap.blocks[b][0]):
            return b
        return None

    def isaddr(self, v):
        return self.block(v) is not None or v in self.fns or v in self.gaddr

    def cells(self, a, n):
        m = self.mem
        return [o for o in range(n) if (a + o) % P in m]

    # -- stand-ins ----------------------------------------------------------
    def stub(self, ab, pit, callee, args, e):
        r = self.heap.stub(ab, pit, callee, args, e)
        if r is not NotImplemented:
            return r
        nm = callee if isinstance(callee, str) else ''
        if not nm:
            return NotImplemented
        if nm in ('strlen',):
            return len(self.cstr(args[0]))
        if nm in ('strcpy', 'stpcpy'):
            s = self.cstr(args[1])
            b = self.block(args[0])
            if b is not None and sgn(args[0]) - b + len(s) + 1 > self.heap.blocks[b][0]:
                self.issues.append('a string is copied beyond its block')
            self.setstr(args[0], s)
            return args[0]
        if nm == 'strcmp':
            x, y = self.cstr(args[0]), self.cstr(args[1])
            return (x > y) - (x < y)
        if nm == 'strncmp':
            k = sgn(args[2])
            x, y = self.cstr(args[0])[:k], self.cstr(args[1])[:k]
            return (x > y) - (x < y)
        if nm == 'dlerror':
            return 0
        if nm == 'dladdr':
            fn = self.fns.get(args[0])
            s = 0
            if fn is not None and not self.mod._raw[fn].get('internal'):
                s = self.newstr(fn)
            ab.put(pit, args[1], self.newstr('vpic'), 'ptr', e)
            ab.put(pit, args[1] + 8, 1, 'ptr', e)
            ab.put(pit, args[1] + 16, s, 'ptr', e)
            ab.put(pit, args[1] + 24, args[0] if s else 0, 'ptr', e)
            return 1
        if nm == 'dlsym':
            s = self.cstr(args[1])
            if s in self.mod._raw and not self.mod._raw[s].get('internal'):
                return self.rnd.h(4, vg.crc(s))
            return 0
        if nm in ('_Znwm', '_Znam'):
            return self.heap.alloc(sgn(args[0]), 'new')
        if nm.startswith(('_ZdlPv', '_ZdaPv')):
            return 0
        if nm in ('fopen', 'fopen64'):
            mode, name = self.cstr(args[1]), self.cstr(args[0])
            self.fname, self.mode = name, mode[0]
            if mode[0] == 'w':
                self.files[name] = []
            elif name not in self.files:
                return 0
            self.pos = 0
            self.isopen = True
            return (1 << 56) % P
        if nm == 'fclose':
            if self.mode == 'r' and self.pos != len(self.files[self.fname]):
                self.issues.append('the restore ends before the end of the checkpoint')
            if not getattr(self, 'isopen', False):
                self.issues.append('a file is closed twice')
            self.isopen = False
            return 0
        if nm == 'fwrite':
            n = sgn(args[1]) * sgn(args[2])
            s = args[0]
            if not 0 < n < 1 << 26:
                raise Broken(f'write of {n} bytes')
            b = self.block(s)
            if b is not None and sgn(s) - b + n > self.heap.blocks[b][0]:
                self.issues.append(f'{n} bytes are written from a block with {self.heap.blocks[b][0] - (sgn(s) - b)} bytes left')
            cs = []
            for o in self.cells(s, n):
                a = (s + o) % P
                v = self.mem[a]
                if self.isaddr(v) and not self.fty.get(a):
                    v = self.rnd.h(899, v)       # stale in the next process
                cs.append((o, v, self.fty.get(a)))
            self.files[self.fname].append((n, cs))
            return args[2]
        if nm == 'fread':
            n = sgn(args[1]) * sgn(args[2])
            st = self.files[self.fname]
            if self.mode != 'r' or self.pos >= len(st):
                raise Mismatch('the restore reads beyond the end of the checkpoint')
            k, cs = st[self.pos]
            self.pos += 1
            if k != n:
                raise Mismatch(f'the restore reads {n} bytes where {k} were written')
            b = self.block(args[0])
            if b is not None and sgn(args[0]) - b + n > self.heap.blocks[b][0]:
                raise Mismatch(f'{n} bytes are restored into a block with {self.heap.blocks[b][0] - (sgn(args[0]) - b)} bytes left')
            for o, v, t in cs:
                a = (args[0] + o) % P
                self.mem[a] = v
                self.fty.pop(a, None)
                if t is not None:
                    self.fty[a] = t
                ab.log.append((a, v, e))
            return args[2]
        if nm.startswith(('log_printf', '_Z10log_printf', 'printf', 'fprintf')):
            return 0
        if nm == 'seed_rng' or nm.startswith('_Z8seed_rng'):
            s = self.S['rng']
            for o in range(0, s.size, 4):
                ab.put(pit, args[0] + o, self.rnd.h(890, args[0], o), 'i32', e)
            return args[0]
        if nm.startswith(('MPI_', 'pthread_')):
            raise Broken(f'unexpected {nm}')
        if 'mp_allgather_i64' in nm:
            own = sgn(self.load(args[0]))
            for i in range(self.nworld):
                ab.put(pit, args[1] + 8 * i, own, 'i64', e)
            return 0
        if nm in ('sqrt', 'sqrtf', 'exp', 'sinh', 'expf', 'sinhf'):
            v = self.rnd.h(891, vg.crc(nm), args[0] or 0)
            import math
            x = self.approx.get(args[0] or 0, 0.5)
            self.approx[v] = getattr(math, nm.rstrip('f') if nm != 'sqrtf' else 'sqrt')(x)
            return v
        return NotImplemented


class Mismatch(Exception):
    pass


SC = {'float': True, 'double': True}


class Scene:
    """a simulation, built by the repository's constructors"""

    def __init__(self, g, mod, cfg, shape):
        self.mod, self.cfg, self.shape = mod, cfg, shape
        sh = self.sh = dict(dims=(2, 3, 1), rank=1, nworld=2, npipe=2, nsp=2, np=3, nm=2, nmat=2, bcs=True, coll=True, emit=True, fields=True, bufs=True, sized=True)
        sh.update(shape)
        m = self.m = CM(g, mod, 7, sh['rank'], sh['nworld'], sh['npipe'])
        self.ab = Abs(mod, m, m.stub, 1 << 13)
        S = mod.structs
        self.order = []
        f = lambda n: self.fn(n)
        call = lambda n, *a: self.ab.call(self.fn(n), [x % P if x is not None else None for x in a])
        self.call = call
        mem = m.mem
        h = m.rnd.h
        mem[h(3, vg.crc(self.gname('booted')))] = 1
        # boot objects, registered with the constants of their call sites
        self.boot = []
        for cal in self.bootsites():
            a = [h(3, vg.crc(cal[0]))] + [h(4, vg.crc(x)) if x else 0 for x in cal[1:]]
            call('register_object', *a)
            self.boot.append((a[0], cal[0]))
        R = m.real
        # simulation object
        vp = S['vpic_simulation']
        self.vp = m.heap.alloc(vp.size, 'vpic_simulation')
        ctor = [n for n in mod._raw if n.startswith('_ZN15vpic_simulationC')]
        if not ctor:
            raise Broken('no constructor of vpic_simulation')
        self.ab.call(mod.func(ctor[0]), [self.vp])
        ptrs = [x[0] for x in vp.members if '*' in x[2]]
        self.scal(self.vp, vp)
        L = lambda a, st, k: m.load((a + S[st].off(k)) % P)
        self.L = L
        self.ent, self.sync, self.grid = (sgn(L(self.vp, 'vpic_simulation', k)) for k in ('entropy', 'sync_entropy', 'grid'))

        def setm(a, st, k, v):
            x = (a + S[st].off(k)) % P
            m.mem[x] = v % P
            m.fty[x] = False
        if sh['sized']:
            call('size_grid', self.grid, *sh['dims'])
        self.scal(self.grid, S['grid'], skip=('nx', 'ny', 'nz', 'sx', 'sy', 'sz', 'nv', 'range', 'neighbor', 'mp', 'bc', 'rangel', 'rangeh'))
        for k in ('dt', 'cvac', 'eps0', 'rdx', 'rdy', 'rdz'):
            m.setf(self.grid + S['grid'].off(k), Q(1, 4))
        if sh['bufs']:
            mp = L(self.grid, 'grid', 'mp')
            szr, szs = self.member('mp_size_recv_buffer'), self.member('mp_size_send_buffer')
            for k, (port, n) in enumerate(((0, 8), (5, 40), (26, 12))):
                self.ab.call(szr, ([0] if len(szr.args) == 4 else []) + [mp, port, n])
                self.ab.call(szs, ([0] if len(szs.args) == 4 else []) + [mp, port, n + 4])
                for w in ('rbuf', 'sbuf'):
                    pt = m.load((m.load(mp + S['mp'].off(w)) + 8 * port) % P)
                    self.fill(pt, n // 4)
            for w in ('rreq_sz', 'sreq_sz'):
                self.fill(m.load(mp + S['mp'].off(w)), 27)
        if not sh['sized']:
            return
        if not sh['fields']:
            return
        # materials, fields
        ml = (self.vp + vp.off('material_list')) % P
        self.mats = []
        for k in range(sh['nmat']):
            a = call('material', m.newstr(f'mat{k}'), *[R(Q(k + 3 + j, 4)) for j in range(12)])
            call('append_material', a, ml)
            self.mats.append(a)
        self.fa = call('new_standard_field_array', self.grid, m.load(ml), R(Q(1, 8)))
        setm(self.vp, 'vpic_simulation', 'field_array', self.fa)
        nv = L(self.grid, 'grid', 'nv')
        self.nv = sgn(nv)
        self.ia = call('new_interpolator_array', self.grid)
        self.aa = call('new_accumulator_array', self.grid)
        self.ha = call('new_hydro_array', self.grid)
        for k, v in (('interpolator_array', self.ia), ('accumulator_array', self.aa), ('hydro_array', self.ha)):
            setm(self.vp, 'vpic_simulation', k, v)
        self.fill(L(self.fa, 'field_array', 'f'), self.nv * S['field'].size // 4, True)
        self.fill(L(self.ia, 'interpolator_array', 'i'), self.nv * S['interpolator'].size // 4, True)
        for o, st, k, el in ((self.aa, 'accumulator_array', 'a', 'accumulator'), (self.ha, 'hydro_array', 'h', 'hydro')):
            b = L(o, st, k)
            n = m.heap.blocks[sgn(b)][0]
            self.fill(b, n // 4, True)
        # species
        sl = (self.vp + vp.off('species_list')) % P
        self.sps = []
        for k in range(sh['nsp']):
            a = call('species', m.newstr(f'sp_{k}'), R(Q(-3 - k, 4)), R(Q(5 + k, 4)), 7 + k, 4 + k, 3, k % 2, self.grid)
            call('append_species', a, sl)
            self.sps.append(a)
            setm(a, 'species', 'np', sh['np'])
            setm(a, 'species', 'nm', sh['nm'])
            self.fill(L(a, 'species', 'p'), sh['np'] * S['particle'].size // 4, True)
            self.fill(L(a, 'species', 'pm'), sh['nm'] * S['particle_mover'].size // 4, True)
            self.fill(L(a, 'species', 'partition'), self.nv + 1)
        if not sh['nsp']:
            return
        lst = m.load(sl)
        s0, s1 = self.sps[0], self.sps[-1]
        if sh['bcs']:
            bl = (self.vp + vp.off('particle_bc_list')) % P
            for k in range(2):
                a = call('absorb_tally', lst, self.fa)
                call('append_particle_bc', a, bl)
                self.fill(m.load(m.load(a + S['particle_bc'].off('params')) + S['absorb_tally'].off('tally')), sh['nsp'])
                a = call('maxwellian_reflux', lst, self.ent)
                call('append_particle_bc', a, bl)
                p = m.load(a + S['particle_bc'].off('params'))
                for q in ('ut_para', 'ut_perp'):
                    self.fill(m.load(p + S['maxwellian_reflux'].off(q)), sh['nsp'], True)
        if sh['emit']:
            el = (self.vp + vp.off('emitter_list')) % P
            for k in range(3):
                a = call('child_langmuir', s0, self.ia, self.fa, self.aa, self.ent, 2 + k, R(Q(1, 3)), R(Q(1, 5)), R(Q(1, 7)), R(Q(1, 9)))
                call('append_emitter', a, el)
                if k:
                    c = call('size_emitter', a, 3 * k)
                    self.fill(c, 3 * k)
        if sh['coll']:
            cl = (self.vp + vp.off('collision_op_list')) % P
            nm = m.newstr
            ops = [
                ('langevin', (R(Q(1, 3)), R(Q(1, 4)), s0, self.ent, 5)),
                ('hard_sphere_fluid', (nm('hsf'), R(Q(2)), R(Q(3)), R(Q(4)), R(Q(5)), R(Q(6)), R(Q(7)), R(Q(1, 2)), s1, R(Q(1, 9)), self.ent, 3)),
                ('hard_sphere', (nm('hs'), s0, R(Q(1, 3)), s1, R(Q(1, 4)), self.ent, R(Q(3, 2)), 4)),
                ('large_angle_coulomb_fluid', (nm('lf'), R(Q(2)), R(Q(3)), R(Q(4)), R(Q(5)), R(Q(6)), R(Q(7)), R(Q(1, 2)), s0, R(Q(1, 9)), self.ent, 3)),
                ('large_angle_coulomb', (nm('lac'), s0, s1, R(Q(1, 4)), self.ent, R(Q(3, 2)), 4)),
                ('takizuka_abe', (nm('ta'), s0, s1, self.ent, R(Q(3, 2)), 4)),
            ]
            for n, a in ops:
                if self.find(n) is None:
                    continue
                c = call(n, *a)
                call('append_collision_op', c, cl)

    # -- helpers ---------------------------------------------------------
    def find(self, n):
        f = self.mod.func(n)
        if f is not None:
            return f
        for k in self.mod._raw:
            if k.startswith(f'_Z{len(n)}{n}'):
                return self.mod.func(k)
        return None

    def fn(self, n):
        f = self.find(n)
        if f is None:
            raise Broken(f'{n} not found')
        return f

    def member(self, n):
        for k in self.mod._raw:
            if k == n or k.startswith('_Z') and f'{len(n)}{n}' in k:
                f = self.mod.func(k)
                if f is not None and k == n:
                    return f
        for k in self.mod._raw:
            if k.startswith('_Z') and f'{len(n)}{n}' in k:
                return self.mod.func(k)
        raise Broken(f'{n} not found')

    def gname(self, n):
        c = [k for k in self.mod.globals if k == n or k.startswith(f'_ZL{len(n)}{n}')]
        if len(c) > 1:
            c = [k for k in c if 'checkpt' in str(self.mod.globals[k].get('file', ''))] or c
        if not c:
            raise Broken(f'global {n} not found')
        return c[0]

    def zero(self, a, s):
        for o in range(0, s.size, 4):
            self.m.mem[(a + o) % P] = 0

    def scal(self, a, s, skip=()):
        """generic values in the scalar members of a record"""
        m = self.m
        for nm, off, ty, sz in [x[:4] for x in s.members]:
            if nm in skip or ty.endswith('*') or '*' in ty or ty in ('species_id', 'material_id'):
                continue
            fl = ty.split('[')[0] in ('float', 'double')
            w = 8 if ty.split('[')[0] in ('double', 'int64_t', 'size_t', 'uint64_t') else 1 if ty.split('[')[0] == 'char' else 4
            if not ty:
                continue
            n = sz // w
            for j in range(n if w > 1 else (n + 3) // 4):
                x = (a + off + j * max(w, 1) * (4 if w == 1 else 1)) % P
                m.mem[x] = m.rnd.h(892, off, j)
                m.fty[x] = fl
                if fl:
                    m.approx.setdefault(m.mem[x], 1.0 + j)

    def fill(self, a, n, fl=False):
        m = self.m
        for j in range(n):
            x = (a + 4 * j) % P
            m.mem[x] = m.rnd.h(893, a, j)
            m.fty[x] = fl

    def bootsites(self):
        """registrations of the static objects: (object, functions) of the call sites"""
        res = []
        for n in self.mod._raw:
            if 'boot' not in n:
                continue
            for c in self.regsites(n):
                if c[0] is not None and c not in res:
                    res.append(c)
        key = lambda r: ('serial' not in r[0], 'thread' not in r[0])
        return sorted(res, key=key)

    def regsites(self, n):
        import ir
        f = self.mod.func(n)
        for b, i in f.calls():
            if ir.callee_name(i) == 'register_object':
                yield tuple(o[1] if o[0] in ('fn', 'g') else None for o in i['o'][:4])

    # -- the round trip ------------------------------------------------------
    def registry(self):
        m, S = self.m, self.mod.structs['registry']
        head = (m.rnd.h(3, vg.crc(self.gname('registry')))) % P
        out = []
        a = m.mem.get(head, 0)
        while a:
            out.append({k: m.load((a + S.off(k)) % P) for k in ('obj', 'checkpt_func', 'restore_func', 'reanimate_func', 'id')})
            a = m.load((a + S.off('next')) % P)
            if len(out) > 500:
                raise Broken('registry without end')
        return out

    def roundtrip(self, R):
        """R(category, name, ok, message)"""
        m, call = self.m, self.call
        old = self.registry()
        nb = set(m.heap.blocks)
        snap, sfty = dict(m.mem), dict(m.fty)
        idg = m.rnd.h(3, vg.crc(self.gname('next_id')))
        nid = m.mem.get(idg)
        name = m.newstr('restart')
        call('checkpt_objects', name)
        ch = [a for a, v in snap.items() if m.mem.get(a) != v and m.block(a) in nb and m.block(a) not in m.heap.free]
        R('writer', ch == [], f'writing a checkpoint changes {len(ch)} values of the simulation' if ch else '')
        issues = list(m.issues)
        m.issues.clear()
        call('restore_objects', name)
        call('reanimate_objects')
        R('stream', not (m.issues + issues) , (m.issues + issues + [''])[0])
        new = self.registry()
        R('registry', len(new) == len(old) and all(all(x[k] == y[k] for k in ('checkpt_func', 'restore_func', 'reanimate_func', 'id')) for x, y in zip(old, new)),
          'the registry of objects (order, identifiers or functions) differs after the restore')
        R('registry', m.mem.get(idg) == nid, 'the next object identifier differs after the restore')
        if len(new) != len(old):
            return
        # isomorphism of the object graphs
        fwd, bwd = {}, {}
        todo = []
        bad = []

        def what(b):
            return self.names.get(b, f'a block of {m.heap.blocks[b][0]} bytes')

        def pair(x, y, via):
            if x in fwd or y in bwd:
                if fwd.get(x) != y or bwd.get(y) != x:
                    bad.append(f'{via} is not restored to its own copy of {what(x)}')
                return
            fwd[x], bwd[y] = y, x
            todo.append((x, y, via))
        self.label(snap)
        for x, y in zip(old, new):
            ox, oy = sgn(x['obj']), sgn(y['obj'])
            if x['obj'] in m.gaddr:
                if y['obj'] != x['obj']:
                    bad.append(f'the static object {m.gaddr[x["obj"]]} is not restored in place')
                continue
            if oy not in m.heap.blocks or oy in nb:
                bad.append(f'{what(ox)} is not restored to a fresh record')
                continue
            pair(ox, oy, what(ox))
        n = 0
        while todo and not bad:
            x, y, via = todo.pop()
            sx, ax = m.heap.blocks[x][:2]
            sy, ay = m.heap.blocks[y][:2]
            w = what(x)
            if y in m.heap.free:
                bad.append(f'{w} is freed again by the restore')
                break
            live = [o for o in range(sx) if (x + o) % P in snap]
            need = max((o + 4 for o in live), default=0) if w.startswith('material coefficients') else sx
            if sy < need:
                bad.append(f'{w}: {sx} bytes are restored as {sy}')
            if (ax or 0) > 16 and (ay or 0) % ax or ((ax is None) != (ay is None) and w not in ('vpic_simulation',)):
                bad.append(f'{w}: alignment {ax} is restored as {ay}')
            for o in live:
                v, t = snap[(x + o) % P], sfty.get((x + o) % P)
                u = m.mem.get((y + o) % P)
                n += 1
                b = m.block(v) if not t else None
                fld = self.field(x, o)
                if b is not None and b in nb:
                    c = None if u is None else m.block(u)
                    if c is None or sgn(u) - c != sgn(v) - b:
                        bad.append(f'{w}{fld}: the pointer is not restored')
                        break
                    pair(b, c, w + fld)
                elif u != v:
                    bad.append(f'{w}{fld}: ' + ('not restored' if u is None else 'the function is not restored' if v in m.fns else 'the pointer is not restored' if v in m.gaddr else 'the value is not restored'))
                    break
        R('graph', not bad, (bad + [''])[0])
        self.nvals = n
        lost = [b for b in nb if b not in fwd and b not in m.heap.free and m.heap.blocks[b][2] != 'new']
        reach = [b for b in lost if not self.isnode(b, snap)]
        if not bad:
            R('graph', not reach, f'{what(reach[0])} is not part of the restored simulation' if reach else '')
        dup = [b for b in m.heap.blocks if b not in nb and b not in bwd and b not in m.heap.free and m.heap.blocks[b][2] != 'new' and not self.isnode(b, m.mem)]
        if not bad:
            R('graph', not dup, f'{len(dup)} blocks allocated by the restore are not reachable' if dup else '')
        # static objects
        for o, g in self.boot:
            pass

    def isnode(self, b, mem):
        """a registry node"""
        return self.m.heap.blocks[b][0] == self.mod.structs['registry'].size

    def label(self, mem):
        """names of the blocks for messages"""
        m, S = self.m, self.mod.structs
        nm = self.names = {}
        ty = self.bty = {}

        def mark(a, what, st=None):
            a = sgn(a)
            if a in m.heap.blocks and a not in nm:
                nm[a] = what
                ty[a] = st
                return True
            return False

        def rec(a, st, what, depth=0):
            if not mark(a, what, st) or st not in S or depth > 8:
                return
            for x in S[st].members:
                if st == 'field_array' and x[0] == 'params':
                    rec(mem.get((a + x[1]) % P, 0), 'sfa_params', 'field_array.params', depth + 1)
                elif x[2].endswith('*'):
                    v = mem.get((a + x[1]) % P)
                    t = self.mod.resolve(x[2][:-1]).replace('const ', '').replace('struct ', '').strip()
                    if v:
                        if x[0] == 'next' or t in ('species', 'grid', 'field_array', 'rng', 'rng_pool', 'interpolator_array', 'accumulator_array', 'hydro_array', 'material', 'particle_bc', 'emitter', 'collision_op', 'mp'):
                            rec(v, t, t, depth + 1)
                        elif t in S:
                            rec(v, t, 'material coefficients' if t == 'material_coefficient' else f'{what}.{x[0]}', depth + 1)
                        else:
                            mark(v, f'{what}.{x[0]}')
        rec(self.vp, 'vpic_simulation', 'vpic_simulation')
        for o in self.registry():
            pass

    def field(self, b, o):
        st = self.bty.get(b)
        s = self.mod.structs.get(st) if st else None
        if s is None:
            return f' at offset {o}'
        if s.size and o >= s.size:
            return f' element {o // s.size}'
        f = s.field_at(o)
        return f'.{f[0]}' if f else f' at offset {o}'


SHAPES = {
    'full': {},
    'one-of-each': dict(nsp=1, nmat=1, np=0, nm=0, npipe=1, dims=(1, 1, 1), rank=0, nworld=1),
    'two-materials': dict(nmat=3, nsp=3, np=7, nm=4, npipe=3, dims=(2, 1, 2), rank=2, nworld=3),
    'no-species': dict(nsp=0),
    'no-fields': dict(fields=False),
    'unsized': dict(sized=False, bufs=False),
    'empty': dict(np=0, nm=0, nsp=2),
    'idle': dict(bufs=False, bcs=False, coll=False, emit=False, nm=0),
}


def check(mod, cfg, R, shape, g=None):
    """R(rule, category, instance, ok, where, msg)"""
    f = mod.func('checkpt_objects')
    if f is None:
        raise Broken('checkpt_objects not found')
    where = f'{f.file}:{f.line}'
    S = Scene(g or Graph(), mod, cfg, SHAPES[shape])
    RR = lambda cat, ok, msg: R(cat, f'{cat}/{shape}/{cfg}', ok, where, msg)
    try:
        S.roundtrip(RR)
    except Mismatch as e:
        RR('stream', False, str(e))
    except Aborted as e:
        ef = e.args[0]
        RR('stream', False, f'a valid simulation is refused (error exit at {getattr(ef, "where", None) or getattr(ef, "loc", None)}) during the checkpoint or the restore')
    return S


def rejects(mod, cfg, R):
    """restores and checkpoints that must be refused"""
    f = mod.func('restore_objects')
    where = f'{f.file}:{f.line}'
    g = Graph()

    def tryit(name, pre, post, text):
        S = Scene(g, mod, cfg, SHAPES['no-fields'])
        m = S.m
        n = m.newstr('restart')
        try:
            pre(S)
            S.call('checkpt_objects', n)
            post(S)
            S.call('restore_objects', n)
            S.call('reanimate_objects')
        except Aborted:
            R('rejects', f'{name}/{cfg}', True, where, '')
            return
        except Mismatch:
            R('rejects', f'{name}/{cfg}', False, where, text + ' reads beyond the data')
            return
        R('rejects', f'{name}/{cfg}', False, where, text)

    def setg(k, v):
        def post(S):
            S.m.mem[S.m.rnd.h(3, vg.crc(k))] = v
        return post
    no = lambda S: None
    tryit('world-size', no, setg('_world_size', 5), 'a checkpoint of another number of ranks is accepted')
    tryit('world-rank', no, setg('_world_rank', 0), 'the checkpoint of another rank is accepted')

    def dangling(S):
        m, vp = S.m, S.mod.structs['vpic_simulation']
        m.mem[(S.vp + vp.off('species_list')) % P] = m.heap.alloc(96, 'x')
    tryit('unregistered', dangling, no, 'a pointer to an object the checkpoint does not contain is written')

    def header(S):
        st = S.m.files['restart']
        for i, (n, cs) in enumerate(st):
            if i > 20 and n == 8 and len(cs) == 1 and sgn(cs[0][1]) == 0xDA7A:
                st[i] = (8, [(0, 0xDA7B, None)])
                return
        raise Broken('no data header in the stream')
    tryit('data-header', no, header, 'a malformed data header is accepted')

    def obj(S):
        st = S.m.files['restart']
        k = [i for i, (n, cs) in enumerate(st) if n == 8 and len(cs) == 1 and sgn(cs[0][1]) == 0x600DF00D]
        st[k[len(k) // 2]] = (8, [(0, 0x600DF00E, None)])
    tryit('object-header', no, obj, 'a malformed object header is accepted')


def covered(mod, cfg, R):
    """every registered (checkpoint, restore) pair of the source occurs in the full scene"""
    import ir
    S = Scene(Graph(), mod, cfg, SHAPES['full'])
    have = {(x['checkpt_func'], x['restore_func'], x['reanimate_func']) for x in S.registry()}
    h = S.m.rnd.h
    for n in mod._raw:
        f = mod.func(n)
        for b, i in f.calls():
            c = ir.callee_name(i)
            if c not in ('register_object', 'new_particle_bc_internal', 'new_collision_op_internal', 'new_emitter_internal'):
                continue
            fs = i['o'][1:4] if c == 'register_object' else i['o'][3:6]
            if any(o[0] not in ('fn', 'null') for o in fs):
                continue
            t = tuple(h(4, vg.crc(o[1])) if o[0] == 'fn' else 0 for o in fs)
            if t not in have:
                raise Broken(f'{n} registers an object the scenes do not build')
            R('covered', f'{n}/{cfg}', True, f'{f.file}:{f.line}', '')
