"""Life of a run: destruction of a simulation (built, or restored), the main program, services, the command
line and the allocation helpers, evaluated as ordered value graphs."""
import itertools, random
import ckan, vg
from fractions import Fraction as Q
from vg import P, Graph
from kern import sgn
from absev import Abs, Aborted
from proj import Broken


# -- destruction -----------------------------------------------------------------
def destroy(mod, cfg, R, shape, restored):
    sh = dict(ckan.SHAPES[shape])
    S = ckan.Scene(Graph(), mod, cfg, sh)
    m = S.m
    d = [n for n in mod._raw if n.startswith('_ZN15vpic_simulationD')]
    if not d:
        raise Broken('no destructor of vpic_simulation')
    f = mod.func(d[0])
    vp = S.vp
    inst = f'{"restored" if restored else "built"}/{shape}/{cfg}'
    wh = f'{f.file}:{f.line}'
    h = m.heap
    S.label(m.mem)
    if restored:
        cf = next((x['checkpt_func'] for x in S.registry() if sgn(x['obj']) == vp), None)
        old = set(h.blocks)
        keep = set(m.mem)
        name = m.newstr('restart')
        try:
            S.call('checkpt_objects', name)
            S.call('restore_objects', name)
            S.call('reanimate_objects')
        except (Aborted, ckan.Mismatch):
            return        # the subject of another check
        new = [sgn(x['obj']) for x in S.registry() if x['checkpt_func'] == cf]
        if len(new) != 1 or new[0] in old:
            return
        vp = new[0]
        h.free = [b for b in h.free]
        S.vp = vp
        S.label(m.mem)
    else:
        old = set()
    h.issues.clear()
    m.issues.clear()
    try:
        S.ab.call(f, [vp])
    except Aborted as e:
        ef = e.args[0]
        R('freed', inst, False, wh, f'destroying the simulation ends in an error (at {getattr(ef, "where", None) or getattr(ef, "loc", None)})')
        return
    boot = {a for a, n in S.boot}
    reg = [x for x in S.registry() if x['obj'] not in boot]
    name = lambda x: (m.fns.get(x['checkpt_func']) or '?')
    R('unregistered', inst, not reg, wh, f'{len(reg)} objects stay registered after the simulation is destroyed, first the one written by {name(reg[0])}' if reg else '')
    lost = [x for x in boot if x not in {y['obj'] for y in S.registry()}]
    R('unregistered', 'boot/' + inst, not lost, wh, 'a service is unregistered with the simulation' if lost else '')
    R('freed', 'once/' + inst, not h.issues, wh, (h.issues + [''])[0])
    regnodes = set()
    hd = m.rnd.h(3, vg.crc(S.gname('registry')))
    a = m.mem.get(hd, 0)
    while a:
        regnodes.add(sgn(a))
        a = m.load((a + mod.structs['registry'].off('next')) % P)
    left = [b for b in h.blocks if b not in h.free and b not in old and b != vp and b not in regnodes and h.blocks[b][2] not in ('new', 'file')]
    w = S.names.get(left[0], f'a block of {h.blocks[left[0]][0]} bytes') if left else ''
    R('freed', 'all/' + inst, not left, wh, f'{len(left)} blocks of the simulation are never freed, first {w}' if left else '')


# -- small worlds for the program, services, command line, memory --------------------
class L:
    def __init__(self, mod, seed=1, rank=0, nworld=1):
        self.mod = mod
        m = self.m = ckan.CM(Graph(), mod, 5 + seed, rank, nworld, 2)
        self.base = m.stub
        self.ab = Abs(mod, m, self.stub, 1 << 13)
        self.calls = []
        self.answers = {}
        self.nest = set()
        self.said = []
        self.real = {}
        self.n = 0
        self.mallocs = {}
        self.freed = []
        self.nomem = False
        self.shift = 0
        self.gn = lambda n: m.rnd.h(3, vg.crc(n))

    def fn(self, n):
        for k in self.mod._raw:
            if k == n or k.startswith(f'_Z{len(n)}{n}'):
                return self.mod.func(k)
        raise Broken(f'{n} not found')

    def where(self, n):
        f = self.fn(n)
        return f'{f.file}:{f.line}'

    def run(self, n, *a):
        self.calls = []
        try:
            return self.ab.call(self.fn(n), [x % P for x in a]), ''
        except Aborted:
            return None, 'error exit'

    def stub(self, ab, pit, c, args, e):
        m = self.m
        nm = c if isinstance(c, str) else ''
        s = m.cstr
        if nm == 'strcmp':
            x, y = s(args[0]), s(args[1])
            return ((x > y) - (x < y)) % P
        if nm == 'strncmp':
            x, y = s(args[0])[:sgn(args[2])], s(args[1])[:sgn(args[2])]
            return ((x > y) - (x < y)) % P
        if nm == 'strlen':
            return len(s(args[0]))
        if nm == 'strstr':
            x, y = s(args[0]), s(args[1])
            return (args[0] + x.index(y)) % P if y in x else 0
        if nm == 'strchr':
            x, y = s(args[0]), chr(sgn(args[1]) & 255)
            return (args[0] + x.index(y)) % P if y in x else 0
        if nm in ('atoi', 'strtol', '__isoc23_strtol'):
            return int('0' + s(args[0]).strip()) if not s(args[0]).startswith('-') else -int(s(args[0])[1:]) % P
        if nm in ('atof', 'strtod'):
            return m.real(Q(s(args[0])))
        if nm in ('malloc', 'calloc'):
            n = sgn(args[0]) * (sgn(args[1]) if nm == 'calloc' else 1)
            if self.nomem:
                return 0
            self.n += 1
            a = (1 << 44) + (self.n << 28) + self.shift
            self.mallocs[a] = n
            return a
        if nm == 'aligned_alloc' or nm == 'memalign':
            if self.nomem:
                return 0
            self.n += 1
            a = (1 << 44) + (self.n << 28) + sgn(args[0])
            self.mallocs[a] = sgn(args[1])
            return a
        if nm == 'posix_memalign':
            if self.nomem:
                return 12
            self.n += 1
            a = (1 << 44) + (self.n << 28) + sgn(args[1])
            self.mallocs[a] = sgn(args[2])
            ab.put(pit, args[0], a, 'ptr', e)
            return 0
        if nm == 'free':
            if args[0]:
                self.freed.append(sgn(args[0]))
            return 0
        if nm in ('sprintf', 'snprintf'):
            k = 1 if nm == 'sprintf' else 2
            t = self.fmt(s(args[k]), args[k + 1:])
            if nm == 'snprintf':
                t = t[:max(0, sgn(args[1]) - 1)]
            m.setstr(args[0], t)
            return len(t)
        if 'log_printf' in nm or nm in ('printf', 'puts', 'fprintf', 'vfprintf', 'fflush', 'putchar', 'fputs', 'fwrite', 'fputc'):
            return 0
        if nm in self.nest:
            return NotImplemented
        t = self.answer(nm if nm else c, args)
        if t is not None:
            return t
        return self.base(ab, pit, c, args, e)

    def fmt(self, f, a):
        out, i, k = '', 0, 0
        import re
        for x in re.split(r'(%[-+ 0#]*\d*(?:\.\d+)?(?:hh|h|ll|l|z|j)?[a-zA-Z%])', f):
            if x.startswith('%') and len(x) > 1:
                if x[-1] == '%':
                    out += '%'
                    continue
                v = a[k]
                k += 1
                out += self.m.cstr(v) if x[-1] == 's' else chr(sgn(v)) if x[-1] == 'c' else str(sgn(v))
            else:
                out += x
        return out

    def answer(self, nm, args):
        return None


# -- command line ----------------------------------------------------------------
def argv(w, words):
    m = w.m
    base = (1 << 52) % P
    cell = (1 << 51) % P
    argc = (1 << 51) + 4096
    adr = []
    for i, x in enumerate(words):
        a = ((1 << 53) + (i << 12)) % P
        m.setstr(a, x)
        adr.append(a)
        m.mem[(base + 8 * i) % P] = a
        m.fty.pop((base + 8 * i) % P, None)
    m.mem[(base + 8 * len(words)) % P] = 0
    m.mem[cell] = base
    m.mem[argc] = len(words)
    return argc, cell, base, adr


def after(w, argc, cell, base, adr):
    m = w.m
    if sgn(m.load(cell)) != base:
        return None
    n = sgn(m.load(argc))
    if not 0 <= n <= len(adr):
        return None
    got = [m.load((base + 8 * i) % P) for i in range(n)]
    if any(x not in adr for x in got) or m.load((base + 8 * n) % P) != 0:
        return None
    return [adr.index(x) for x in got]


def cmdline(mod, cfg, R, maxlen):
    K = '--key'
    kinds = {'strip_cmdline': 'flag', 'strip_cmdline_int': 'int', 'strip_cmdline_double': 'double', 'strip_cmdline_string': 'string'}
    alpha = [K, '7', 'x', '-3', '--ke', '--keys']
    bad = {}
    count = dict.fromkeys(kinds, 0)
    ws = {k: L(mod) for k in kinds}
    for n in range(maxlen + 1):
        for words in itertools.product(alpha if n < maxlen else alpha[:3], repeat=n):
            for fn, kind in kinds.items():
                if kind in ('int', 'double') and any(words[i] == K and i + 1 < n and words[i + 1] in ('x', '--ke', '--keys', K) for i in range(n)):
                    continue
                w = ws[fn]
                a = argv(w, ('prog',) + words)
                adr = a[3]
                key = w.m.newstr(K)
                keep, val = [0], None
                i = 1
                cnt = 0
                while i <= n:
                    if words[i - 1] == K:
                        cnt += 1
                        if kind != 'flag':
                            i += 1
                            if i <= n:
                                val = i
                    else:
                        keep.append(i)
                    i += 1
                dflt = {'flag': 0, 'int': 41, 'double': w.m.real(Q(5, 2)), 'string': w.m.newstr('deflt')}[kind]
                r, err = w.run(fn, a[0], a[1], key, *([] if kind == 'flag' else [dflt]))
                if kind == 'flag':
                    want = cnt
                elif val is None:
                    want = dflt
                elif kind == 'string':
                    want = adr[val]
                else:
                    want = int(words[val - 1]) % P if kind == 'int' else w.m.real(Q(words[val - 1]))
                count[fn] += 1
                if err:
                    bad.setdefault(fn, f'{" ".join(words)}: refused')
                elif r != want % P:
                    bad.setdefault(fn, f'{" ".join(words)}: wrong result')
                elif after(w, *a) != keep:
                    bad.setdefault(fn, f'{" ".join(words)}: wrong arguments are left')
    for fn in kinds:
        R('cmdline', f'{fn}/{count[fn]}/{cfg}', fn not in bad, ws[fn].where(fn), f'{fn}: {bad.get(fn)}' if fn in bad else '')
    f = 'detect_old_style_arguments'
    w = L(mod)
    for words, ok in (((), 1), (('--tpp', '3'), 1), (('--restore', 'a'), 1), (('-tpp', '3'), 0), (('-tpp=3',), 0), (('-restore', 'x'), 0), (('a', '-restore=x'), 0), (('-restart',), 0),
                      (('a', 'b', '-restart', 'x'), 0), (('a=b',), 1), (('restart', 'tpp', 'restore'), 1), (('-t', '-rest', '-restarts'), 1), (('x-tpp', 'x-restart'), 1)):
        a = argv(w, ('prog',) + words)
        r, err = w.run(f, a[0], a[1])
        msg = ''
        if ok and (err or after(w, *a) != list(range(len(words) + 1))):
            msg = f'{" ".join(words)}: ' + ('refused' if err else 'arguments change')
        if not ok and not err:
            msg = f'{" ".join(words)}: accepted'
        R('cmdline', f'{f}/{"_".join(words)}/{cfg}', not msg, w.where(f), f'{f}: {msg}' if msg else '')


# -- memory helpers ----------------------------------------------------------------
def memory(mod, cfg, R):
    ref = 1 << 51
    for al in (None, 1, 8, 16, 32, 64, 128, 256, 4096):
        fn = 'util_malloc' if al is None else 'util_malloc_aligned'
        fr = 'util_free' if al is None else 'util_free_aligned'
        bad = {}
        for n in (0, 1, 7, 16, 100, 128, 4000):
            for shift in (0, 16, 48, 112, 240, 4080):
                w = L(mod)
                w.shift = shift
                m = w.m
                m.mem[ref] = 77
                a = (0, ref, n) + (() if al is None else (al,))
                r, err = w.run(fn, *a)
                p = sgn(m.load(ref))
                if err:
                    bad.setdefault(fn, 'a valid request is refused')
                    continue
                if n == 0:
                    if p or w.mallocs:
                        bad.setdefault(fn, 'an empty request is not the null pointer')
                else:
                    blk = [b for b, z in w.mallocs.items() if b <= p and p + n <= b + z]
                    if not blk:
                        bad.setdefault(fn, f'{n} bytes at alignment {al}, address {shift}: the result does not lie in the allocated block')
                        continue
                    if al and p % al:
                        bad.setdefault(fn, f'alignment {al} is not honoured')
                    b, z = blk[0], w.mallocs[blk[0]]
                    for x, v, e in w.ab.log:
                        x = sgn(x)
                        if x != ref and abs(x - b) < 1 << 20 and not (b <= x and x + 8 <= b + z):
                            bad.setdefault(fn, f'{n} bytes at alignment {al}: writes outside of the block')
                        elif x != ref and p < x + 8 and x < p + n:
                            pass
                w.run(fr, ref)
                if sgn(m.load(ref)) != 0:
                    bad.setdefault(fr, 'the pointer is not cleared')
                if sorted(w.freed) != sorted(w.mallocs):
                    bad.setdefault(fr, 'the block that was allocated is not what is freed')
                nf = len(w.freed)
                w.run(fr, ref)
                if len(w.freed) != nf:
                    bad.setdefault(fr, 'freeing again frees again')
                if n:
                    w.nomem = True
                    m.mem[ref] = 0
                    if not w.run(fn, *a)[1]:
                        bad.setdefault(fn, 'lack of memory goes unnoticed')
        w = L(mod)
        if not w.run(fn, 0, 0, 8, *(() if al is None else (al,)))[1]:
            bad.setdefault(fn, 'no place for the result is accepted')
        for k in (0, 3, 12, 48, 96):
            if al == 16 and not w.run(fn, 0, ref, 8, k)[1]:
                bad.setdefault(fn, f'alignment {k} is accepted')
        for x in (fn, fr):
            R('memory', f'{x}/{al}/{cfg}', x not in bad, w.where(x), f'{x}: {bad.get(x)}' if x in bad else '')


# -- services ----------------------------------------------------------------------
class Prog(L):
    """records the calls of the program; scripted answers"""

    def answer(self, nm, args):
        if not isinstance(nm, str):
            n = self.m.fns.get(nm[1])
            nm = n or self.slots.get(nm[1], 'unknown function')
            self.calls.append((nm,) + tuple(args))
            return 0
        if nm.startswith(('__cxa', 'llvm.')):
            return None
        for k, v in self.scripted.items():
            if k == nm or f'{len(k)}{k}' in nm and nm.startswith('_Z'):
                self.calls.append((k,) + tuple(args))
                return v(args) if callable(v) else v
        return None

    slots = {}
    scripted = {}


def services(mod, cfg, R):
    for rank, nworld in ((0, 1), (1, 3)):
        w = Prog(mod, 1, rank, nworld)
        m = w.m
        clock = [Q(10)]
        sums = []

        def wall(a):
            clock[0] += 3
            return m.real(clock[0])

        def allsum(a):
            sums.append(m.load(a[0]))
            m.mem[a[1] % P] = m.real(Q(1000 + 7 * len(sums)))
            m.fty[a[1] % P] = True
            return 0
        w.scripted = dict(boot_checkpt=0, halt_checkpt=0, boot_mp=0, halt_mp=0, mp_barrier=0, wallclock=wall, mp_allsum_d=allsum, omp_get_num_threads=2)
        w.slots = {}
        D = mod.structs
        for g, st in (('thread', 'pipeline_dispatcher'), ('serial', 'pipeline_dispatcher'), ('omp_helper', 'omp_container')):
            if g in mod.globals and st in D:
                for k in ('boot', 'halt', 'dispatch', 'wait'):
                    try:
                        o = D[st].off(k)
                    except Exception:
                        continue
                    v = m.rnd.h(991, vg.crc(g + k))
                    m.mem[(w.gn(g) + o) % P] = v
                    m.fty.pop((w.gn(g) + o) % P, None)
                    w.slots[v] = f'{g}.{k}'
        omp = 'omp_helper' in mod.globals
        wh = w.where('boot_services')
        r, err = w.run('boot_services', 1 << 50, (1 << 50) + 64)
        names = [c[0] for c in w.calls if c[0] not in ('omp_get_num_threads',)]
        need = ['boot_checkpt', 'boot_mp'] + (['omp_helper.boot'] if omp else ['serial.boot', 'thread.boot'])
        msg = err
        if not msg and names[:1] != ['boot_checkpt']:
            msg = 'the checkpoint service is not booted first'
        if not msg and sorted(n for n in names if 'boot' in n) != sorted(need):
            msg = f'boots {[n for n in names if "boot" in n]}'
        if not msg and any(c[1:3] != (1 << 50, (1 << 50) + 64) for c in w.calls if 'boot' in c[0]):
            msg = 'a service does not get the command line'
        if not msg and not omp and names.index('serial.boot') > names.index('thread.boot'):
            msg = ''
        ts = w.gn('_boot_timestamp')
        want = m.real(Q(1000 + 7, nworld))
        if not msg and ('mp_barrier' not in names or names.index('mp_barrier') < max(names.index(n) for n in need)):
            msg = 'the ranks are not synchronised when all services are up'
        if not msg and m.load(ts) != want:
            msg = 'the time of the boot is not the mean of the clocks of all ranks'
        R('services', f'boot/{rank}of{nworld}/{cfg}', not msg, wh, f'boot_services: {msg}' if msg else '')
        r, err = w.run('uptime')
        wu = w.where('uptime')
        want2 = (m.real(Q(1000 + 14, nworld)) - want) % P
        msg = err or ('' if r == want2 else 'is not the mean time since boot')
        if not msg and sums[-1] != m.real(clock[0]):
            msg = 'does not sum the clocks of the ranks'
        R('services', f'uptime/{rank}of{nworld}/{cfg}', not msg, wu, f'uptime: {msg}' if msg else '')
        wh = w.where('halt_services')
        r, err = w.run('halt_services')
        names = [c[0] for c in w.calls]
        hneed = ['halt_checkpt', 'halt_mp'] + ([] if omp else ['serial.halt', 'thread.halt'])
        msg = err
        if not msg and sorted(names) != sorted(hneed):
            msg = f'calls {names}'
        if not msg and names[-1] != 'halt_checkpt':
            msg = 'the checkpoint service is halted before others have unregistered'
        if not msg and m.load(ts) != 0:
            msg = 'the time of the boot stays set'
        R('services', f'halt/{rank}of{nworld}/{cfg}', not msg, wh, f'halt_services: {msg}' if msg else '')


# -- main program ------------------------------------------------------------------
def program(mod, cfg, R):
    vs = '15vpic_simulation'
    for restore, modify, steps, rank in itertools.product((None, 'run/restart.12'), (None, 'mod.txt'), (0, 1, 5), (0, 3)):
        w = Prog(mod, 1, rank, 4)
        m = w.m
        log = []
        gs = w.gn('simulation')
        if 'simulation' not in mod.globals:
            raise Broken('global simulation not found')
        m.mem[gs] = 0
        left = [steps]
        ssim = (1 << 47) + 512
        bad = []
        st = dict(sim=None, dead=False)

        def ev(k):
            def go(a):
                if k == 'boot_services':
                    pass
                if k == 'strip_cmdline_string':
                    key = m.cstr(a[2])
                    v = {'--restore': restore, '--modify': modify}.get(key)
                    log.append(('strip', key))
                    return a[3] if v is None else m.newstr(v)
                if k == 'restore_objects':
                    log.append((k, m.cstr(a[0])))
                    m.mem[gs] = ssim
                    return 0
                if k in ('initialize', 'advance', 'finalize', 'modify'):
                    if a[0] != m.load(gs) or not a[0]:
                        bad.append(f'{k} of no simulation')
                    log.append((k,) + ((m.cstr(a[1]),) if k == 'modify' else tuple(a[1:]) if k == 'initialize' else ()))
                    if k == 'advance':
                        left[0] -= 1
                        return 1 if left[0] >= 0 else 0
                    return 0
                if k in ('register_object', 'unregister_object'):
                    log.append((k, a[0], a[1:]))
                    return 0
                log.append((k,))
                return m.real(Q(5)) if k == 'wallclock' else 0
            return go
        w.scripted = {k: ev(k) for k in ('boot_services', 'halt_services', 'strip_cmdline_string', 'restore_objects', 'reanimate_objects', 'mp_barrier', 'initialize', 'advance', 'finalize', 'modify', 'register_object', 'unregister_object', 'wallclock')}
        new = [0]
        base = w.stub

        def stub(ab, pit, c, args, e):
            nm = c if isinstance(c, str) else ''
            if nm == '_Znwm':
                new[0] += 1
                return 1 << 47
            if nm.startswith('_ZN15vpic_simulationC'):
                log.append(('construct', args[0]))
                return 0
            if nm.startswith('_ZN15vpic_simulationD'):
                log.append(('destroy', args[0]))
                return 0
            if nm.startswith('_ZdlPv'):
                log.append(('delete', args[0]))
                return 0
            return base(ab, pit, c, args, e)
        w.ab.stub = stub
        r, err = w.run('main', 3, 1 << 50)
        names = [x[0] for x in log if x[0] != 'wallclock']
        want = ['boot_services', 'strip']
        if restore:
            want += ['restore_objects', 'mp_barrier', 'reanimate_objects', 'mp_barrier']
        else:
            want += ['construct', 'initialize', 'register_object']
        want += ['strip'] + (['modify'] if modify else []) + ['advance'] * (steps + 1) + ['unregister_object', 'finalize', 'destroy', 'delete', 'halt_services']
        msg = err or (bad + [''])[0]
        # unregistering the pointer and finalize may go in either order; so may the two options
        a, b = names, want

        def canon(l):
            if 'unregister_object' in l and 'finalize' in l and 'destroy' in l:
                i = l.index('destroy')
                j = max(k for k, x in enumerate(l) if x == 'advance') if 'advance' in l else 0
                l = l[:j + 1] + sorted(l[j + 1:i]) + l[i:]
            return [x for x in l if x not in ('strip', 'mp_barrier')]
        if not msg and canon(a) != canon(b):
            k = next((i for i, (x, y) in enumerate(zip(canon(a) + ['the end'], canon(b) + ['the end'])) if x != y), 0)
            msg = f'{(canon(a) + ["the end"])[k]} instead of {(canon(b) + ["the end"])[k]}'
        if not msg and restore:
            i, j, k = names.index('restore_objects'), names.index('reanimate_objects'), names.index('advance')
            if 'mp_barrier' not in names[i:j] or 'mp_barrier' not in names[j:k]:
                msg = 'the ranks are not synchronised ' + ('before' if 'mp_barrier' not in names[i:j] else 'after') + ' the objects are reanimated'
        if not msg and restore:
            fn = [x[1] for x in log if x[0] == 'restore_objects'][0]
            if fn != f'{restore}.{rank}':
                msg = f'rank {rank} restores from {fn}'
        if not msg and modify and [x[1] for x in log if x[0] == 'modify'] != [modify]:
            msg = 'modifies from another file'
        sim = ssim if restore else 1 << 47
        if not msg and [x[1] for x in log if x[0] == 'destroy'] != [sim]:
            msg = 'another simulation is destroyed'
        if not msg and [x[1] for x in log if x[0] in ('unregister_object',)] != [gs]:
            msg = 'the pointer to the simulation stays registered'
        if not msg and not restore and [x[1] for x in log if x[0] == 'register_object'] != [gs]:
            msg = 'the pointer to the simulation is not registered'
        if not msg and not restore:
            x = [x for x in log if x[0] == 'register_object'][0][2]
            got = [m.fns.get(y, '') for y in x[:2]]
            if 'checkpt_main' not in got[0] or 'restore_main' not in got[1]:
                msg = 'the pointer to the simulation is registered with other functions'
        if not msg and r != 0:
            msg = 'a finished run is reported as failed'
        R('program', f'{"restore" if restore else "init"}-{"modify" if modify else ""}-{steps}-{rank}/{cfg}', not msg, w.where('main'), f'main: {msg}' if msg else '')
        if steps == 0 and not modify:
            # the name a checkpoint is written to is the one a restore looks for
            got = []
            w.scripted = dict(checkpt_objects=lambda a: got.append(m.cstr(a[0])) or 0)
            r, err = w.run('checkpt', m.newstr('run/restart'), 12)
            msg = err or ('' if got == [f'run/restart.12.{rank}'] else f'rank {rank} writes {got}, a restore from run/restart.12 reads run/restart.12.{rank}')
            R('program', f'checkpt/{restore}/{rank}/{cfg}', not msg, w.where('checkpt'), f'checkpt: {msg}' if msg else '')
            r, err = w.run('checkpt', 0, 12)
            R('program', f'checkpt-null/{restore}/{rank}/{cfg}', bool(err), w.where('checkpt'), '' if err else 'a checkpoint without a name is accepted')
