"""Message layer: every function of the layer is evaluated as an ordered value graph with stand-ins for
the MPI library that record buffer, count, type, peer, tag, communicator and request of each call."""
import ckan, vg
from fractions import Fraction as Q
from vg import P, Graph
from kern import sgn
from absev import Abs, Aborted
from proj import Broken

DT = {'double': ('ompi_mpi_double',), 'int': ('ompi_mpi_int', 'ompi_mpi_integer', 'ompi_mpi_int32_t'),
      'i64': ('ompi_mpi_long_long_int', 'ompi_mpi_int64_t', 'ompi_mpi_long'),
      'byte': ('ompi_mpi_byte', 'ompi_mpi_char', 'ompi_mpi_unsigned_char', 'ompi_mpi_uint8_t', 'ompi_mpi_int8_t')}


class W:
    def __init__(self, g, mod, rank, nworld):
        self.mod = mod
        m = self.m = ckan.CM(g, mod, 5, rank, nworld, 2)
        self.base = m.stub
        self.ab = Abs(mod, m, self.stub, 1 << 13)
        self.calls, self.fail, self.count = [], None, None
        self.reg = []
        h = m.rnd.h
        self.gn = lambda n: h(3, vg.crc(n))
        S = mod.structs
        self.comm = h(941, 1)
        c = [n for n in mod.globals if '__world' in n]
        if len(c) != 1:
            raise Broken('world communicator not found')
        self.world = self.gn(c[0])
        m.mem[(self.world + S['collective'].off('comm')) % P] = self.comm
        m.mem[self.gn('_world')] = self.world

    def stub(self, ab, pit, callee, args, e):
        nm = callee if isinstance(callee, str) else ''
        if nm.startswith('MPI_') or nm.startswith('PMPI_'):
            nm = nm.lstrip('P')
            self.calls.append((nm,) + tuple(args))
            if nm == self.fail:
                return 15
            if nm == 'MPI_Get_count':
                ab.put(pit, args[2], self.count, 'i32', e)
            if nm == 'MPI_Comm_dup':
                ab.put(pit, args[1], self.m.rnd.h(941, 2), 'ptr', e)
            if nm == 'MPI_Comm_rank':
                ab.put(pit, args[1], 3, 'i32', e)
            if nm == 'MPI_Comm_size':
                ab.put(pit, args[1], 7, 'i32', e)
            if nm in ('MPI_Comm_free',):
                ab.put(pit, args[0], 0, 'ptr', e)
            return 0
        if nm in ('register_object', 'unregister_object') or 'register_object' in nm:
            self.reg.append((nm, args[0]))
            return 0
        if nm == '__cxa_guard_acquire' or nm == '__cxa_atexit' or nm == '__cxa_guard_release':
            return 0
        if 'mp_allgather' in nm:
            return NotImplemented
        return self.base(ab, pit, callee, args, e)

    def fn(self, n):
        for k in self.mod._raw:
            if k == n or k.startswith(f'_Z{len(n)}{n}'):
                return self.mod.func(k)
        raise Broken(f'{n} not found')

    def run(self, n, *a):
        """(result, '' or the error)"""
        self.calls = []
        try:
            return self.ab.call(self.fn(n), [x % P for x in a]), ''
        except Aborted:
            return None, 'error exit'


def seq(w, want):
    """compare the recorded calls with the expected ones; entries may be sets of admissible values"""
    if [c[0] for c in w.calls] != [x[0] for x in want]:
        return f'calls {", ".join(c[0] for c in w.calls) or "nothing"} instead of {", ".join(x[0] for x in want) or "nothing"}'
    for c, x in zip(w.calls, want):
        for i, (p, q) in enumerate(zip(c[1:], x[1:])):
            if q is None:
                continue
            qs = q if isinstance(q, (set, tuple, list)) else (q,)
            if p not in [y % P for y in qs]:
                return f'{c[0]}: argument {i + 1} wrong'
    return ''


def types(w, k):
    return [w.gn(n) for n in DT[k]]


def coll(mod, cfg, R, rank, nworld):
    """collective operations and the blocking transfers"""
    g = Graph()

    def one(inst, name, args, want, bad=()):
        f = None
        w = W(g, mod, rank, nworld)
        f = w.fn(name)
        where = f'{f.file}:{f.line}'
        r, err = w.run(name, *args(w))
        msg = 'valid arguments are refused' if err else seq(w, want(w))
        R('call', f'{name}/{inst}/{rank}of{nworld}/{cfg}', not msg, where, f'{name} {msg}' if msg else '')
        if want(w):
            w.fail = want(w)[0][0]
            r, err = w.run(name, *args(w))
            R('error', f'{name}/{inst}/{rank}of{nworld}/{cfg}', bool(err), where, '' if err else f'{name}: an error of {w.fail} goes unnoticed')
    A, B = 1 << 50, (1 << 50) + (1 << 20)
    C = lambda w: w.comm
    if nworld == 1:
        pass
    one('', 'mp_barrier', lambda w: [], lambda w: [('MPI_Barrier', w.comm)])
    for n in (1, 2, 7, 100):
        one(n, 'mp_allsum_d', lambda w: [A, B, n], lambda w: [('MPI_Allreduce', A, B, n, types(w, 'double'), w.gn('ompi_mpi_op_sum'), w.comm)])
        one(n, 'mp_allsum_i', lambda w: [A, B, n], lambda w: [('MPI_Allreduce', A, B, n, types(w, 'int'), w.gn('ompi_mpi_op_sum'), w.comm)])
        one(n, 'mp_allgather_i', lambda w: [A, B, n], lambda w: [('MPI_Allgather', A, n, types(w, 'int'), B, n, types(w, 'int'), w.comm)])
        one(n, 'mp_allgather_i64', lambda w: [A, B, n], lambda w: [('MPI_Allgather', A, n, types(w, 'i64'), B, n, types(w, 'i64'), w.comm)])
        one(n, 'mp_gather_uc', lambda w: [A, B, n], lambda w: [('MPI_Gather', A, n, types(w, 'byte'), B, n, types(w, 'byte'), 0, w.comm)])
        for q in range(nworld):
            one(f'{n}-{q}', 'mp_send_i', lambda w: [A, n, q], lambda w: [('MPI_Send', A, n, types(w, 'int'), q, 0, w.comm)])
            one(f'{n}-{q}', 'mp_recv_i', lambda w: [A, n, q], lambda w: [('MPI_Recv', A, n, types(w, 'int'), q, 0, w.comm)])
    if rank:
        one('null', 'mp_gather_uc', lambda w: [A, 0, 5], lambda w: [('MPI_Gather', A, 5, types(w, 'byte'), 0, 5, types(w, 'byte'), 0, w.comm)])
    # a sum is taken in place of two neighbouring arrays
    one('near', 'mp_allsum_d', lambda w: [A, A + 8 * 7, 7], lambda w: [('MPI_Allreduce', A, A + 56, 7, types(w, 'double'), w.gn('ompi_mpi_op_sum'), w.comm)])
    w = W(g, mod, rank, nworld)
    f = w.fn('mp_abort')
    w.run('mp_abort', 77)
    msg = seq(w, [('MPI_Abort', w.comm, 77)])
    R('call', f'mp_abort/{rank}of{nworld}/{cfg}', not msg, f'{f.file}:{f.line}', msg)
    bads = [('mp_allsum_d', (0, B, 1)), ('mp_allsum_d', (A, 0, 1)), ('mp_allsum_d', (A, B, 0)), ('mp_allsum_d', (A, A + 8, 7)), ('mp_allsum_d', (A + 8, A, 2)),
            ('mp_allsum_i', (0, B, 1)), ('mp_allsum_i', (A, 0, 1)), ('mp_allsum_i', (A, B, -1)), ('mp_allsum_i', (A, A + 4, 7)),
            ('mp_allgather_i', (0, B, 1)), ('mp_allgather_i', (A, 0, 1)), ('mp_allgather_i', (A, B, 0)),
            ('mp_allgather_i64', (0, B, 1)), ('mp_allgather_i64', (A, 0, 1)), ('mp_allgather_i64', (A, B, 0)),
            ('mp_gather_uc', (0, B, 1)), ('mp_gather_uc', (A, B, 0)),
            ('mp_send_i', (0, 1, 0)), ('mp_send_i', (A, 0, 0)), ('mp_send_i', (A, 1, -1)), ('mp_send_i', (A, 1, nworld)),
            ('mp_recv_i', (0, 1, 0)), ('mp_recv_i', (A, 0, 0)), ('mp_recv_i', (A, 1, -1)), ('mp_recv_i', (A, 1, nworld))]
    if rank == 0:
        bads.append(('mp_gather_uc', (A, 0, 1)))
    for i, (n, a) in enumerate(bads):
        w = W(g, mod, rank, nworld)
        f = w.fn(n)
        r, err = w.run(n, *a)
        R('refused', f'{n}/{i}/{rank}of{nworld}/{cfg}', bool(err), f'{f.file}:{f.line}', '' if err else f'{n} accepts invalid arguments')


class Bufs:
    """the reference: capacity and contents of each buffer"""

    def __init__(self, w, n):
        self.w, self.n = w, n
        self.mp, err = w.run('new_mp', n)
        if err:
            raise Broken('new_mp refuses a valid number of ports')
        self.data = {}

    def off(self, k):
        return self.w.mod.structs['mp'].off(k)

    def cell(self, k, port, sz):
        m = self.w.m
        return (m.load((self.mp + self.off(k)) % P) + sz * port) % P

    def buf(self, d, port):
        return self.w.m.load(self.cell('rbuf' if d == 'recv' else 'sbuf', port, 8))


def ports(mod, cfg, R, rank, nworld, seed):
    import random
    rnd = random.Random(seed)
    g = Graph()
    w = W(g, mod, rank, nworld)
    m = w.m
    n = (27, 1, 4, 27)[seed % 4]
    B = Bufs(w, n)
    cap = {}
    where = {k: f'{w.fn(k).file}:{w.fn(k).line}' for k in ('mp_size_recv_buffer', 'mp_size_send_buffer', 'mp_begin_recv', 'mp_begin_send', 'mp_end_recv', 'mp_end_send', 'mp_recv_buffer', 'mp_send_buffer', 'new_mp', 'delete_mp')}
    bad = {}

    def note(fn, msg):
        if msg:
            bad.setdefault(fn, msg)
    for d in ('recv', 'send'):
        for p in range(n):
            if B.buf(d, p) != 0:
                note('new_mp', 'a new buffer exists before it has a size')
    val = {}
    st = {}
    picks = [0, n - 1] + [rnd.randrange(n) for _ in range(3)]
    for step in range(48):
        p = rnd.choice(picks)
        d = rnd.choice(('recv', 'send'))
        k = (d, p)
        what = rnd.randrange(4)
        if what == 0 or k not in cap:
            fn = f'mp_size_{d}_buffer'
            size = rnd.choice((1, 2, 3, 16, 33, 160, 1000, 40000, 300000, (cap.get(k) or 8), (cap.get(k) or 8) + 1, max(1, (cap.get(k) or 8) - 1)))
            old = B.buf(d, p)
            others = {(e, q): B.buf(e, q) for e in ('recv', 'send') for q in set(picks) if (e, q) != k}
            nf = len(m.heap.free)
            r, err = w.run(fn, B.mp, p, size)
            if err:
                note(fn, f'a valid size ({size}) is refused')
                break
            b = B.buf(d, p)
            blk = m.heap.blocks.get(b)
            if blk is None or b in m.heap.free:
                note(fn, 'the buffer is no live block')
                break
            if blk[0] < size:
                note(fn, f'a buffer of {blk[0]} bytes for {size}')
            if blk[1] is None or blk[1] % 128:
                note(fn, 'the buffer is not aligned to 128 bytes')
            if k in cap and size <= cap[k] and b != old:
                note(fn, 'a buffer that is large enough is replaced')
            if k in cap and b != old:
                if old not in m.heap.free:
                    note(fn, 'the old buffer is never freed')
                for o, v in val.get(k, {}).items():
                    if m.mem.get((b + o) % P) != v:
                        note(fn, f'the contents are lost when the buffer grows (byte {o} of {cap[k]})')
                        break
            if any(B.buf(e, q) != x for (e, q), x in others.items()):
                note(fn, 'another buffer changes')
            if len(m.heap.free) - nf > 1 or any(x in m.heap.free for x in others.values() if x):
                note(fn, 'a buffer in use is freed')
            if w.calls:
                note(fn, 'communicates')
            cap[k] = blk[0]
            for o in (0, 4, 8, max(0, size // 2 & ~3), max(0, size - 4 & ~3)):
                m.mem[(b + o) % P] = m.rnd.h(942, step, o)
                m.fty.pop((b + o) % P, None)
                val.setdefault(k, {})[o] = m.mem[(b + o) % P]
            val[k] = {o: v for o, v in val[k].items() if o + 4 <= cap[k]}
        elif what == 1:
            fn = f'mp_{d}_buffer'
            r, err = w.run(fn, B.mp, p)
            if err or r != B.buf(d, p):
                note(fn, 'is not the buffer of the port')
        else:
            fn = f'mp_begin_{d}'
            lo = rnd.choice((1, max(1, cap[k] // 2), cap[k]))
            q, tag = rnd.randrange(nworld), rnd.choice((0, 26, p, 1000))
            r, err = w.run(fn, B.mp, p, lo, q, tag)
            if err:
                note(fn, 'valid arguments are refused')
                continue
            rq = B.cell('rreq' if d == 'recv' else 'sreq', p, 8)
            nm = ('MPI_Irecv',) if d == 'recv' else ('MPI_Issend', 'MPI_Isend')
            if len(w.calls) != 1 or w.calls[0][0] not in nm:
                note(fn, f'calls {[c[0] for c in w.calls]}')
            else:
                note(fn, seq(w, [(w.calls[0][0], B.buf(d, p), lo, types(w, 'byte'), q, tag, w.comm, rq)]))
            r, err = w.run(fn, B.mp, p, cap[k] + 1, q, tag)
            if not err:
                note(fn, 'more bytes than the buffer holds are accepted')
            # the failed call must not replace the pending size
            fe = f'mp_end_{d}'
            w.count = lo
            r, err = w.run(fe, B.mp, p)
            if err:
                note(fe, 'a complete transfer is refused')
            elif [c[0] for c in w.calls][:1] != ['MPI_Wait'] or w.calls[0][1] != rq:
                note(fe, 'does not wait for the request of its port')
            elif d == 'recv':
                c = [c for c in w.calls if c[0] == 'MPI_Get_count']
                if not c or c[0][1] != w.calls[0][2]:
                    note(fe, 'the size of the message is not taken from its status')
                r, err = w.run(fn, B.mp, p, lo, q, tag)
                for x in (lo - 1, lo + 1, 0):
                    w.count = x
                    if x != lo and not w.run(fe, B.mp, p)[1]:
                        note(fe, 'a message of another size is accepted')
        for fn in (f'mp_size_{d}_buffer', f'mp_{d}_buffer', f'mp_begin_{d}', f'mp_end_{d}'):
            for x in (-1, n, n + 5):
                a = {f'mp_size_{d}_buffer': (8,), f'mp_begin_{d}': (1, 0, 0)}.get(fn, ())
                if step % 8 == 0 and not w.run(fn, B.mp, x, *a)[1]:
                    note(fn, f'port {x} of {n} is accepted')
        if step % 8 == 1:
            fn = f'mp_size_{d}_buffer'
            for x in (0, -3):
                if not w.run(fn, B.mp, p, x)[1]:
                    note(fn, f'size {x} is accepted')
            fn = f'mp_begin_{d}'
            for a in ((0, 0, 0), (-1, 0, 0), (1, -1, 0), (1, nworld, 0)):
                if k in cap and not w.run(fn, B.mp, p, *a)[1]:
                    note(fn, 'an invalid size or rank is accepted')
            for fn, mp in ((f'mp_begin_{d}', 'MPI_Irecv' if d == 'recv' else 'MPI_Issend'), (f'mp_end_{d}', 'MPI_Wait')):
                w.fail, w.count = mp, 1
                a = (1, 0, 0) if 'begin' in fn else ()
                if k in cap:
                    r, err = w.run(fn, B.mp, p, *a)
                    if not err and any(c[0] == mp for c in w.calls):
                        note(fn, f'an error of {mp} goes unnoticed')
                w.fail = None
    own = [x for k in cap for x in [B.buf(*k)] if x]
    arr = [m.load((B.mp + B.off(x)) % P) for x in ('rbuf', 'sbuf', 'rbuf_sz', 'sbuf_sz', 'rreq_sz', 'sreq_sz', 'rreq', 'sreq')]
    nf = list(m.heap.free)
    r, err = w.run('delete_mp', B.mp)
    left = [x for x in own + arr + [B.mp] if x not in m.heap.free]
    if err or left or m.heap.issues:
        note('delete_mp', 'error exit' if err else m.heap.issues[0] if m.heap.issues else f'{len(left)} blocks are never freed')
    ov = m.heap.overrun(w.ab.log) if hasattr(w.ab, 'log') else None
    if ov:
        note('mp_size_send_buffer', ov[0])
    reg = [x[0] for x in w.reg if x[1] == B.mp]
    if len(reg) != 2:
        note('new_mp', 'the ports are not registered once and unregistered once')
    for fn, wh in where.items():
        R('ports', f'{fn}/{rank}of{nworld}/{seed}/{cfg}', fn not in bad, wh, f'{fn}: {bad.get(fn)}' if fn in bad else '')


def boot(mod, cfg, R):
    g = Graph()
    w = W(g, mod, 0, 1)
    f = w.fn('boot_mp')
    wh = f'{f.file}:{f.line}'
    m = w.m
    c0 = w.gn('ompi_mpi_comm_self')
    ca = (w.world + mod.structs['collective'].off('comm')) % P
    m.mem[ca] = c0
    r, err = w.run('boot_mp', 1 << 50, (1 << 50) + 64)
    dup = m.rnd.h(941, 2)
    rk, sz = (sgn(m.load(w.gn(k))) for k in ('_world_rank', '_world_size'))
    msg = 'valid arguments are refused' if err else ''
    names = [c[0] for c in w.calls]
    if not msg and (names[0] != 'MPI_Init' or w.calls[0][1:3] != (1 << 50, (1 << 50) + 64)):
        msg = 'MPI is not initialised first with the arguments of the program'
    d = [c for c in w.calls if c[0] == 'MPI_Comm_dup']
    if not msg and (len(d) != 1 or d[0][1] != w.gn('ompi_mpi_comm_world') or m.load(ca) != dup):
        msg = 'the world does not communicate over a duplicate of MPI_COMM_WORLD'
    if not msg and (rk, sz) != (3, 7):
        msg = f'rank and size are {rk} and {sz} instead of those MPI gives'
    if not msg and any(c[1] != dup for c in w.calls if c[0] in ('MPI_Comm_rank', 'MPI_Comm_size')):
        msg = 'rank or size of another communicator'
    if not msg and [x[1] for x in w.reg] != [w.world]:
        msg = 'the world is not registered for checkpoints'
    R('boot', f'boot_mp/{cfg}', not msg, wh, f'boot_mp: {msg}' if msg else '')
    f = w.fn('halt_mp')
    wh = f'{f.file}:{f.line}'
    r, err = w.run('halt_mp')
    names = [c[0] for c in w.calls]
    msg = ''
    if err or names != ['MPI_Comm_free', 'MPI_Finalize']:
        msg = f'calls {names}'
    elif (sgn(m.load(w.gn('_world_rank'))), sgn(m.load(w.gn('_world_size')))) != (0, 1) or m.load(ca) != c0:
        msg = 'the world is not one rank afterwards'
    R('boot', f'halt_mp/{cfg}', not msg, wh, f'halt_mp: {msg}' if msg else '')
    for fail in ('MPI_Init', 'MPI_Comm_dup', 'MPI_Comm_rank', 'MPI_Comm_size'):
        w = W(g, mod, 0, 1)
        w.fail = fail
        r, err = w.run('boot_mp', 1 << 50, (1 << 50) + 64)
        R('error', f'boot_mp/{fail}/{cfg}', bool(err), wh, '' if err else f'boot_mp: an error of {fail} goes unnoticed')
