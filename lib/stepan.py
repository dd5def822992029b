"""Order of the phases of a time step and of the initialisation: the driver functions are evaluated as
ordered value graphs on a simulation built by the repository's constructors; the phases (sweeps, sorts,
pushes, hooks, ...) are stand-ins that record the call.  The recorded sequence must be equivalent to the
reference sequence up to exchanging phases that touch no common resource (Mazurkiewicz traces)."""
import re
import ckan, vg
from fractions import Fraction as Q
from vg import P, Graph
from kern import sgn
from absev import Aborted
from proj import Broken

ALL = ('part', 'acc0', 'accN', 'jf', 'e', 'b', 'interp', 'rhof', 'rhob', 'dive', 'divb', 'mov', 'rng', 'step')
# phase -> (reads, writes, additive updates)
DEP = {
    'sort_p': ('', 'part@', ''),
    'clear_accumulator_array': ('', 'acc0 accN', ''),
    'collide': ('step', 'part rng', ''),
    'advance_p': ('interp', 'part@ mov@', 'acc0 accN'),
    'emit': ('e b interp step', 'part mov rng', 'acc0 rhob'),
    'reduce_accumulator_array': ('', 'accN', 'acc0'),
    'boundary_p': ('e b', 'part mov rng', 'acc0 rhob'),
    'accumulate_rhob': ('part@ mov@', '', 'rhob'),
    'clear_jf': ('', 'jf', ''),
    'unload_accumulator_array': ('acc0', '', 'jf'),
    'synchronize_jf': ('', 'jf', ''),
    'advance_b': ('e', 'b', ''),
    'advance_e': ('b jf', 'e', ''),
    'clear_rhof': ('', 'rhof', ''),
    'accumulate_rho_p': ('part@', '', 'rhof'),
    'synchronize_rho': ('', 'rhof rhob', ''),
    'compute_rhob': ('e rhof', 'rhob', ''),
    'compute_div_e_err': ('e rhof rhob', 'dive', ''),
    'compute_rms_div_e_err': ('dive', '', ''),
    'clean_div_e': ('dive', 'e', ''),
    'compute_div_b_err': ('b', 'divb', ''),
    'compute_rms_div_b_err': ('divb', '', ''),
    'clean_div_b': ('divb', 'b', ''),
    'compute_curl_b': ('b', 'e', ''),
    'synchronize_tang_e_norm_b': ('', 'e b rhob', ''),
    'load_interpolator_array': ('e b', 'interp', ''),
    'uncenter_p': ('interp', 'part@', ''),
    'center_p': ('interp', 'part@', ''),
}
HOOKS = ('user_particle_collisions', 'user_particle_injection', 'user_current_injection', 'user_field_injection', 'user_diagnostics', 'user_initialization')
for _h in HOOKS:
    DEP[_h] = ('', ' '.join(ALL), '')


def short(n):
    """source name of a (mangled) function"""
    x = re.match(r'_ZNK?(?:\d+[A-Za-z_]\w*?)?', n)
    if n.startswith('_ZN'):
        s, out = n[3:], []
        if s[:1] == 'K':
            s = s[1:]
        while s[:1].isdigit():
            k = re.match(r'\d+', s)[0]
            out.append(s[len(k):len(k) + int(k)])
            s = s[len(k) + int(k):]
        return out[-1] if out else n
    x = re.match(r'_ZL?(\d+)', n)
    if x:
        return n[x.end():x.end() + int(x[1])]
    return n


def res(ev):
    name, sp = ev[0], ev[1]
    r, w, a = (set(x.split()) for x in DEP[name])

    def ex(s):
        o = set()
        for x in s:
            if x.endswith('@'):
                o.add((x[:-1], sp))
            elif x in ('part', 'mov'):
                o |= {(x, k) for k in range(8)}
            else:
                o.add((x, None))
        return o
    return ex(r), ex(w), ex(a)


def dependent(x, y):
    rx, wx, ax = res(x)
    ry, wy, ay = res(y)
    return bool(wx & (ry | wy | ay) or wy & (rx | ax) or ax & ry or ay & rx)


def txt(ev):
    return ev[0] + (f' of species {ev[1]}' if ev[1] is not None else '') + (f' ({ev[2]})' if ev[2] not in (None, ()) else '')


def compare(got, ref):
    """'' if equivalent, else a description"""
    from collections import Counter
    cg, cr = Counter(got), Counter(ref)
    for k in cr:
        if cg[k] < cr[k]:
            return f'{txt(k)} happens {cg[k]} times instead of {cr[k]}'
    for k in cg:
        if cg[k] > cr[k]:
            return f'{txt(k)} happens {cg[k]} times instead of {cr[k]}'
    ev = list(cr)
    dep = {}

    def num(s):
        c, o = Counter(), []
        for x in s:
            c[x] += 1
            o.append((x, c[x]))
        return {x: i for i, x in enumerate(o)}
    ng, nr = num(got), num(ref)
    for (x, i), p in nr.items():
        for (y, j), q in nr.items():
            if p < q:
                d = dep.get((x, y))
                if d is None:
                    d = dep[(x, y)] = dependent(x, y) if x != y else True
                if d and ng[(x, i)] > ng[(y, j)]:
                    return f'{txt(x)} must come before {txt(y)}' + (f' (occurrences {i} and {j})' if (i, j) != (1, 1) else '')
    return ''


class StepScene(ckan.Scene):
    def __init__(self, g, mod, cfg, shape):
        ckan.Scene.__init__(self, g, mod, cfg, {k: v for k, v in shape.items() if k in ('nsp', 'nmat', 'dims', 'rank', 'nworld', 'np', 'nm', 'coll', 'emit', 'bcs')})
        m, S = self.m, mod.structs
        self.sim = shape
        vp = S['vpic_simulation']
        for k, v in shape.get('sim', {}).items():
            a = (self.vp + vp.off(k)) % P
            m.mem[a], m.fty[a] = v, False
        a = (self.grid + S['grid'].off('step')) % P
        m.mem[a], m.fty[a] = shape.get('step', 0), False
        for k, v in enumerate(shape.get('sort', [])):
            if k < len(self.sps):
                a = (self.sps[k] + S['species'].off('sort_interval')) % P
                m.mem[a], m.fty[a] = v, False
        self.trace = []
        self.ops = {}
        for what, st, lst, fn in (('collide', 'collision_op', 'collision_op_list', 'apply'), ('emit', 'emitter', 'emitter_list', 'emit')):
            a = m.load((self.vp + vp.off(lst)) % P)
            k = 0
            while a:
                pa = m.load((a + S[st].off('params')) % P)
                fp = [x[1] for x in S[st].members if x[0].startswith(fn)]
                if not fp:
                    raise Broken(f'{st} has no {fn} function')
                f = m.fns.get(m.load((a + fp[0]) % P))
                self.ops[(f, pa)] = (what, k)
                k += 1
                a = m.load((a + S[st].off('next')) % P)
            setattr(self, 'n_' + what, k)
        self.hook = {vg.crc(x): x for x in HOOKS}
        self.base = m.stub
        self.ab.stub = self.stub

    def sp(self, a):
        return self.sps.index(a) if a in self.sps else f'?{a}'

    def stepno(self):
        return sgn(self.L(self.grid, 'grid', 'step'))

    def stub(self, ab, pit, callee, args, e):
        nm = callee if isinstance(callee, str) else ''
        if nm and (nm, args[0] if args else None) in self.ops:
            w, k = self.ops[(nm, args[0])]
            self.trace.append((w, None, (k, self.stepno())))
            return 0
        s = short(nm)
        t = s[7:] if s.startswith('vacuum_') else s
        if t in HOOKS:
            self.trace.append((t, None, self.stepno()))
            return 0
        if t == 'wallclock' or t in ('update_profile', 'barrier'):
            return 0
        if t in DEP:
            a = list(args)
            if t == 'accumulate_rhob':
                S = self.mod.structs['particle']
                m = self.m
                pv = [m.load((a[1] + S.off(k)) % P) for k in ('i', 'dx', 'dy', 'dz', 'ux', 'uy', 'uz', 'w')]
                sp = [k for k, q in enumerate(self.sps) if self.inlist(q, a[1])]
                ok = self.same(a, [self.fdata, None, self.grid, self.L(self.sps[sp[0]], 'species', 'q')]) if sp else 'a particle of no species'
                self.trace.append((t, sp[0] if sp else None, (ok, tuple(pv))))
                return 0
            who = None
            lab = None
            if t in ('sort_p', 'advance_p', 'uncenter_p', 'center_p'):
                who = self.sp(a[0])
                lab = self.same(a[1:], {'sort_p': [], 'advance_p': [self.aa, self.ia]}.get(t, [self.ia]))
                if t == 'sort_p':
                    lab = (lab, self.stepno())
            elif t == 'accumulate_rho_p':
                who = self.sp(a[1])
                lab = self.same(a[:1], [self.fa])
            elif t in ('clear_accumulator_array', 'reduce_accumulator_array'):
                lab = self.same(a, [self.aa])
            elif t == 'unload_accumulator_array':
                lab = self.same(a, [self.fa, self.aa])
            elif t == 'load_interpolator_array':
                lab = self.same(a, [self.ia, self.fa])
            elif t == 'boundary_p':
                vp = self.mod.structs['vpic_simulation']
                lab = self.same(a, [self.m.load((self.vp + vp.off(k)) % P) for k in ('particle_bc_list', 'species_list')] + [self.fa, self.aa])
            elif t == 'advance_b':
                lab = (self.same(a[:1], [self.fa]), 'half' if a[1] == self.m.real(Q(1, 2)) else 'whole' if a[1] == self.m.real(Q(1)) else 'other')
            elif t == 'advance_e':
                lab = (self.same(a[:1], [self.fa]), 'half' if a[1] == self.m.real(Q(1, 2)) else 'whole' if a[1] == self.m.real(Q(1)) else 'other')
            else:
                lab = self.same(a, [self.fa])
            self.trace.append((t, who, lab))
            if s != t and self.sim.get('nmat', 2) > 1:
                self.m.issues.append(f'{s} is used although there are several materials')
            return self.m.rnd.h(870, len(self.trace))
        return self.base(ab, pit, callee, args, e)

    def inlist(self, sp, a):
        p = sgn(self.L(sp, 'species', 'p'))
        n = sgn(a) - p
        return 0 <= n < 1 << 20

    @property
    def fdata(self):
        return self.L(self.fa, 'field_array', 'f')

    def same(self, a, ref):
        bad = [i for i, (x, y) in enumerate(zip(a, ref)) if y is not None and x != y % P]
        return f'argument {bad[0]} wrong' if bad else None


def ok(step, iv):
    return iv > 0 and step % iv == 0


def ref_step(S):
    """reference sequence of one time step"""
    sh, sim = S.sim, S.sim['sim']
    n, st = len(S.sps), S.sim.get('step', 0)
    T = []
    A = lambda nm, sp=None, lab=None: T.append((nm, sp, lab))
    if sim['num_step'] > 0 and st >= sim['num_step']:
        return T, 0
    order = S.order_
    for k in order:
        if ok(st, sh['sort'][k]):
            A('sort_p', k, (None, st))
    if n:
        A('clear_accumulator_array')
    for k in range(S.n_collide):
        A('collide', None, (k, st))
    A('user_particle_collisions', None, st)
    for k in order:
        A('advance_p', k)
    for k in range(S.n_emit):
        A('emit', None, (k, st))
    A('user_particle_injection', None, st)
    if n:
        A('reduce_accumulator_array')
    for _ in range(sim['num_comm_round']):
        A('boundary_p')
    for k in order:
        for pv in S.left[k]:
            A('accumulate_rhob', k, (None, pv))
    A('clear_jf')
    if n:
        A('unload_accumulator_array')
    A('synchronize_jf')
    A('user_current_injection', None, st)
    A('advance_b', None, (None, 'half'))
    A('advance_e', None, (None, 'whole'))
    A('user_field_injection', None, st)
    A('advance_b', None, (None, 'half'))
    if ok(st, sim['clean_div_e_interval']):
        A('clear_rhof')
        for k in order:
            A('accumulate_rho_p', k)
        A('synchronize_rho')
        r = sim['num_div_e_round']
        for i in range(r):
            A('compute_div_e_err')
            if i in (0, r - 1):
                A('compute_rms_div_e_err')
            A('clean_div_e')
    if ok(st, sim['clean_div_b_interval']):
        r = sim['num_div_b_round']
        for i in range(r):
            A('compute_div_b_err')
            if i in (0, r - 1):
                A('compute_rms_div_b_err')
            A('clean_div_b')
    if ok(st, sim['sync_shared_interval']):
        A('synchronize_tang_e_norm_b')
    if n:
        A('load_interpolator_array')
    A('user_diagnostics', None, st + 1)
    return T, 1


def ref_init(S):
    n, st = len(S.sps), S.sim.get('step', 0)
    T = []
    A = lambda nm, sp=None, lab=None: T.append((nm, sp, lab))
    A('user_initialization', None, st)
    A('synchronize_tang_e_norm_b')
    for x in ('compute_div_b_err', 'compute_rms_div_b_err', 'clean_div_b', 'compute_curl_b', 'clear_rhof'):
        A(x)
    for k in S.order_:
        A('accumulate_rho_p', k)
    for x in ('synchronize_rho', 'compute_rhob', 'compute_div_e_err', 'compute_rms_div_e_err', 'clean_div_e', 'synchronize_tang_e_norm_b'):
        A(x)
    if n:
        A('load_interpolator_array')
    for k in S.order_:
        A('uncenter_p', k)
    A('user_diagnostics', None, st)
    return T, None


SIM = dict(num_step=0, num_comm_round=3, clean_div_e_interval=0, num_div_e_round=2, clean_div_b_interval=0, num_div_b_round=2, sync_shared_interval=0, status_interval=0, verbose=1)


def sc(step=0, sort=(0, 0, 0), lo=0, nsp=2, rank=0, **k):
    base = dict(nsp=nsp, nm=lo, np=6, step=step, sort=list(sort), rank=rank, nworld=2, bcs=nsp > 0, coll=nsp > 0, emit=nsp > 0)
    base.update({x: k.pop(x) for x in list(k) if x in ('coll', 'emit', 'bcs', 'nmat')})
    base['sim'] = dict(SIM, **k)
    return base


STEPS = {
    'plain': sc(step=3),
    'sorting': sc(step=6, sort=(3, 4, 2), nsp=3, num_step=7),
    'sorting-first': sc(step=0, sort=(3, 0, 5), nsp=3, rank=1),
    'last-clean': sc(step=11, num_step=12, sort=(11, 1, 11), nsp=3, clean_div_e_interval=11, clean_div_b_interval=11, sync_shared_interval=11),
    'many-rounds': sc(step=12, clean_div_e_interval=3, num_div_e_round=11, clean_div_b_interval=4, num_div_b_round=12, num_comm_round=9),
    'late': sc(step=3000000000, clean_div_e_interval=1000000000, clean_div_b_interval=1000, sync_shared_interval=3000000000 - (1 << 32)),
    'finished': sc(step=7, num_step=7, sort=(1, 1, 1)),
    'beyond-end': sc(step=9, num_step=7, clean_div_e_interval=1),
    'last-step': sc(step=6, num_step=7),
    'clean-all': sc(step=12, clean_div_e_interval=3, num_div_e_round=3, clean_div_b_interval=4, num_div_b_round=4, sync_shared_interval=6, status_interval=13),
    'clean-e': sc(step=10, clean_div_e_interval=5, num_div_e_round=1, clean_div_b_interval=3, sync_shared_interval=4, rank=1),
    'clean-b': sc(step=10, clean_div_e_interval=4, clean_div_b_interval=5, num_div_b_round=1, sync_shared_interval=3),
    'sync': sc(step=10, clean_div_e_interval=4, clean_div_b_interval=3, sync_shared_interval=5, status_interval=1, rank=1),
    'clean-none': sc(step=4, clean_div_e_interval=2, num_div_e_round=0, clean_div_b_interval=2, num_div_b_round=0),
    'disabled': sc(step=0, clean_div_e_interval=-1, clean_div_b_interval=-2, sync_shared_interval=-1, sort=(-1, -3, 0)),
    'first': sc(step=0, clean_div_e_interval=10, clean_div_b_interval=10, sync_shared_interval=10),
    'no-species': sc(step=4, nsp=0, clean_div_e_interval=4, clean_div_b_interval=2, sync_shared_interval=1),
    'no-ops': sc(step=2, coll=False, emit=False, nsp=1, num_comm_round=1),
    'leftover': sc(step=2, lo=1, num_comm_round=2),
    'leftovers': sc(step=2, lo=3, nsp=3, num_comm_round=1, rank=1, verbose=0),
    'one-material': sc(step=8, nmat=1, clean_div_e_interval=2, clean_div_b_interval=2, sync_shared_interval=2),
}
INITS = {
    'plain': sc(),
    'three': sc(nsp=3, rank=1),
    'no-species': sc(nsp=0),
    'one-material': sc(nmat=1, nsp=1),
}
LEFT = {1: [[2], [5], [0]], 3: [[0, 1, 2], [1, 3, 5], [3, 4, 5]]}


def check(mod, cfg, R, what, name):
    """R(rule, instance, ok, where, message)"""
    fn = [k for k in mod._raw if k.startswith('_ZN15vpic_simulation') and short(k) == ('advance' if what == 'step' else 'initialize')]
    if len(fn) != 1:
        raise Broken(f'driver function: {fn}')
    f = mod.func(fn[0])
    where = f'{f.file}:{f.line}'
    shp = (STEPS if what == 'step' else INITS)[name]
    S = StepScene(Graph(), mod, cfg, dict(shp))
    m, st = S.m, mod.structs
    SP, PT, PM = st['species'], st['particle'], st['particle_mover']
    keys = ('dx', 'dy', 'dz', 'i', 'ux', 'uy', 'uz', 'w')
    # species in list order
    S.order_ = []
    a = m.load((S.vp + st['vpic_simulation'].off('species_list')) % P)
    while a:
        S.order_.append(S.sps.index(a))
        a = m.load((a + SP.off('next')) % P)
    S.left, before = {}, {}
    for k, a in enumerate(S.sps):
        p, pm, np_, nm = (m.load((a + SP.off(x)) % P) for x in ('p', 'pm', 'np', 'nm'))
        mv = LEFT.get(nm, [[]] * 8)[k]
        S.left[k] = []
        lst = []
        for j in range(np_):
            q = p + j * PT.size
            ci = (q + PT.off('i')) % P
            vox = 40 + 7 * j + k
            m.mem[ci], m.fty[ci] = (vox << 3 | (j + k) % 6) if j in mv else vox, False
            pv = tuple(m.load((q + PT.off(x)) % P) for x in keys)
            pr = tuple(vox if x == 'i' else m.load((q + PT.off(x)) % P) for x in ('i', 'dx', 'dy', 'dz', 'ux', 'uy', 'uz', 'w'))
            if j in mv:
                S.left[k].append(pr)
            else:
                lst.append(pv)
        for j, i in enumerate(mv):
            c = (pm + j * PM.size + PM.off('i')) % P
            m.mem[c], m.fty[c] = i, False
        before[k] = lst
    ref, rv = (ref_step if what == 'step' else ref_init)(S)
    try:
        r = S.ab.call(f, [S.vp] + ([None, None] if what == 'init' else []))
    except Aborted as ex:
        R('order', f'{what}/{name}/{cfg}', False, where, f'error exit at {getattr(ex.args[0], "loc", "")} in a valid simulation')
        return
    msg = compare(S.trace, ref)
    R('order', f'{what}/{name}/{cfg}', not msg, where, msg)
    R('arguments', f'{what}/{name}/{cfg}', not m.issues, where, (m.issues + [''])[0])
    if what == 'init':
        return
    R('step', f'{what}/{name}/{cfg}', r == rv and S.stepno() == shp['step'] + rv, where,
      f'advance returns {r} and leaves step {S.stepno()} after step {shp["step"]}; expected {rv} and {shp["step"] + rv}')
    for k, a in enumerate(S.sps):
        p, np_, nm = (m.load((a + SP.off(x)) % P) for x in ('p', 'np', 'nm'))
        if rv:
            now = sorted(tuple(m.load((p + j * PT.size + PT.off(x)) % P) for x in keys) for j in range(min(np_, 99)))
            good = now == sorted(before[k]) and nm == 0
            R('leftover', f'{what}/{name}/{cfg}/sp{k}', good, where, f'species {k} keeps {np_} particles and {nm} movers' + (', not those without unfinished movers' if np_ == len(before[k]) else f' instead of {len(before[k])} and 0'))
