"""Deck helpers and named lists: the inline helpers of vpic_simulation (instantiated by the witness deck
lib/wit/deck.cxx) and the list functions of materials, species, boundary handlers, emitters and collision models,
evaluated as ordered value graphs on simulations built by the repository's constructors."""
import itertools, random
import regan, stepan, vg, ckan
from fractions import Fraction as Q
from vg import P, Graph
from kern import sgn
from absev import Aborted
from proj import Broken

W = 'src/vpic/vpic.h'
FACES = [(-1, 0, 0), (1, 0, 0), (0, -1, 0), (0, 1, 0), (0, 0, -1), (0, 0, 1)]


def bnd(d):
    return 13 + d[0] + 3 * d[1] + 9 * d[2]


class DS(regan.RegScene):
    def __init__(self, mod, cfg, **shape):
        sh = dict(dims=(2, 3, 4), nsp=2, nmat=2, npipe=2, coll=False, emit=False, bcs=False, bufs=False, np=2, nm=1)
        sh.update(shape)
        regan.RegScene.__init__(self, Graph(), mod, cfg, sh)
        self.dims = sh['dims']
        self.ev = []

    def stub(self, ab, pit, callee, args, e):
        n = stepan.short(callee) if isinstance(callee, str) else ''
        m = self.m
        if n in ('drand', 'drandn'):
            self.ev.append((n, args[0]))
            return m.real(Q(3 + len(self.ev) * 5 % 17, 19))
        if n in ('seed_rng_pool', 'mp_abort') or n.endswith('nanodelay'):
            self.ev.append((n,) + tuple(args))
            return args[0] if n == 'seed_rng_pool' else 0
        if n == 'remainder' and callee == 'remainder':
            return m.rnd.h(870, *args)
        return regan.RegScene.stub(self, ab, pit, callee, args, e)

    def case(self, n, a=(), i=(), s=None, **g):
        """runs one case of the witness; None if it ends in an error"""
        m = self.m
        for k, x in enumerate(a):
            self.setg('wit_a', m.real(Q(x)), 8 * k, True)
        for k, x in enumerate(i):
            self.setg('wit_i', x, 8 * k)
        if s is not None:
            self.setg('wit_s', m.newstr(s) if s else s if s == 0 else self.empty())
        for k, v in g.items():
            self.setg(k, v)
        self.ev = []
        try:
            self.run('user_current_injection', n)
        except Aborted:
            return False
        return True

    def empty(self):
        a = self.m.heap.alloc(1, 'string')
        self.m.mem[a] = 0
        return a

    def out(self, n, o=0):
        return self.m.load((self.gl(n) + o) % P)

    def r(self):
        return self.out('wit_r')

    def ii(self, k):
        return sgn(self.out('wit_i', 8 * k))

    def vpl(self, k):
        return self.L(self.vp, 'vpic_simulation', k)

    def setm(self, a, st, k, v, fl=False):
        x = (a + self.mod.structs[st].off(k)) % P
        self.m.mem[x], self.m.fty[x] = v % P, fl

    def try_(self, n, *a):
        try:
            return self.call(n, *a), True
        except Aborted:
            return None, False

    def size(self, a):
        b = self.m.block(a)
        return None if b is None else (self.m.heap.blocks[b][0] - (sgn(a) - b), self.m.heap.blocks[b][1])

    def str(self, a):
        return self.m.cstr(a)

    def nreg(self, a):
        return sum(1 for x in self.registry() if sgn(x['obj']) == sgn(a))


# -- accessors -------------------------------------------------------------------
def access(mod, cfg, R, dims):
    S = DS(mod, cfg, dims=dims)
    m, st = S.m, mod.structs
    inst = f'{"x".join(map(str, dims))}/{cfg}'
    nx, ny, nz = dims
    vox = lambda i, j, k: i + (nx + 2) * (j + (ny + 2) * k)
    pts = [(i, j, k) for i in (0, 1, nx, nx + 1) for j in (0, ny, ny + 1) for k in (0, 1, nz + 1)]
    for c, what, ar, el, mem in ((21, 'field', 'field_array', 'field', 'f'), (22, 'interpolator', 'interpolator_array', 'interpolator', 'i'), (23, 'hydro', 'hydro_array', 'hydro', 'h')):
        base = S.L(S.vpl(ar), ar, mem)
        bad = ''
        for p in pts:
            ok = S.case(c, i=p)
            if not ok or sgn(S.r() - base) != st[el].size * vox(*p):
                bad = bad or f'{what}{p} is not the value of its cell'
        for v in (0, 1, vox(nx, ny, nz), vox(nx + 1, ny + 1, nz + 1)):
            ok = S.case({21: 27, 22: 28, 23: 29}[c], i=(v,))
            if not ok or sgn(S.r() - base) != st[el].size * v:
                bad = bad or f'{what}({v}) is not the value of that cell'
        R('access', f'{what}/{inst}', not bad, W, bad)
    bad = ''
    for p in pts:
        if not S.case(26, i=p) or S.ii(7) != vox(*p):
            bad = bad or f'voxel{p} is {S.ii(7)}, the cell is {vox(*p)}'
    R('access', f'voxel/{inst}', not bad, W, bad)
    for c, pool, what in ((30, S.ent, 'rng'), (31, S.sync, 'sync_rng')):
        n = sgn(S.L(pool, 'rng_pool', 'n_rng'))
        bad = ''
        for k in range(min(n, 3)):
            want = m.load((S.L(pool, 'rng_pool', 'rng') + 8 * k) % P)
            if not S.case(c, i=(k,)) or S.r() != want:
                bad = bad or f'{what}({k}) is not generator {k} of its pool'
        R('access', f'{what}/{inst}', not bad, W, bad)
    ok = S.case(32)
    R('access', f'step/{inst}', ok and S.r() == (S.grid + st['grid'].off('step')) % P, W, 'step() does not refer to the step of the grid')
    ok = S.case(33)
    R('access', f'rank/{inst}', ok and S.ii(7) == S.sh['rank'] and S.ii(6) == S.sh['nworld'], W, 'rank() and nproc() are not the rank and the size of the world')
    for t0, dt, n in ((Q(3), Q(1, 8), 77), (Q(-1, 2), Q(5, 4), 0)):
        S.setm(S.grid, 'grid', 't0', m.real(t0), True)
        S.setm(S.grid, 'grid', 'dt', m.real(dt), True)
        S.setm(S.grid, 'grid', 'step', n)
        ok = S.case(18)
        R('access', f'time/{n}/{inst}', ok and S.out('wit_d') == m.real(t0 + dt * n), W, 'time() is not the start time plus the steps done')


def double(mod, cfg, R):
    """mod: the helpers without inlining"""
    for nm in ('time', 'courant_length', 'uniform', 'normal', 'trunc_granular'):
        for k in mod._raw:
            if k.startswith(f'_ZN15vpic_simulation{len(nm)}{nm}E'):
                f = mod.func(k)
                sp = [x for bl in f.blocks for x in bl if x['op'] in ('fmul', 'fadd', 'fsub', 'fdiv') and x.get('t') == 'float']
                R('access', f'double/{nm}/{cfg}', not sp, f'{f.file}:{f.line}', f'{nm}() is computed in single precision' if sp else '')


# -- formulas --------------------------------------------------------------------
def formula(mod, cfg, R):
    S = DS(mod, cfg, nsp=0)
    m = S.m
    for L3 in ((Q(1), Q(2), Q(3)), (Q(7, 2), Q(1, 3), Q(5))):
        for n3 in itertools.product((1, 4), (1, 3), (1, 6)):
            if n3 == (1, 1, 1):
                continue
            ok = S.case(19, a=L3 + tuple(Q(x) for x in n3))
            w = sum((Q(n) / L) ** 2 for n, L in zip(n3, L3) if n > 1)
            v = S.out('wit_d')
            q = m.pit().apx(v)
            pt = m.pit()
            iw = m.real(1 / w)
            sq = {v * v % P * m.real(w) % P == 1, v == pt.sqrt(iw), v * pt.sqrt(m.real(w)) % P == 1}
            R('formula', f'courant/{L3[0]}/{n3}/{cfg}', bool(ok and True in sq and q is not None and abs(q * q * float(w) - 1) < 1e-9), W, f'the Courant length of {n3} cells is not 1/sqrt of the sum of (cells/length)^2 over the resolved axes')
    for a, b, r in ((Q(73, 10), Q(2), Q(6)), (Q(12), Q(3), Q(12)), (Q(5), Q(7), Q(0)), (Q(-15, 2), Q(2), Q(-6)), (Q(9, 2), Q(1, 2), Q(9, 2))):
        ok = S.case(20, a=(a, b))
        R('formula', f'trunc/{a},{b}/{cfg}', bool(ok and S.out('wit_d') == m.real(r)), W, f'trunc_granular({a},{b}) is not {r}')
    ok = S.case(35, a=(Q(7), Q(3)))
    R('formula', f'remainder/{cfg}', bool(ok and S.out('wit_d') == m.rnd.h(870, m.real(Q(7)), m.real(Q(3)))), W, 'remainder(a,b) is not the remainder of a and b')
    g0 = m.load(S.L(S.ent, 'rng_pool', 'rng') % P)
    for c, nm, fn in ((24, 'uniform', lambda a, b, d: a * (1 - d) + b * d), (25, 'normal', lambda a, b, d: a + b * d)):
        for a, b in ((Q(-1), Q(3)), (Q(2), Q(5, 2))):
            ok = S.case(c, a=(a, b))
            d = Q(8, 19)
            R('formula', f'{nm}/{a},{b}/{cfg}', bool(ok and S.ev == [('drand' if c == 24 else 'drandn', g0)] and S.out('wit_d') == m.real(fn(a, b, d))), W, f'{nm}(a,b) is not the deviate of the generator given, brought to the range' )
    for base in (0, 7, -3):
        ok = S.case(34, i=(base,))
        R('formula', f'seed/{base}/{cfg}', bool(ok and sorted(S.ev) == sorted([('seed_rng_pool', S.ent % P, base % P, 0), ('seed_rng_pool', S.sync % P, base % P, 1)])), W, 'seed_entropy does not seed the local and the synchronous generators, each as what it is, from the given base')
    ok = S.case(39, a=(Q(5),))
    R('formula', f'abort/{cfg}', [x for x in S.ev if x[0] == 'mp_abort'] == [('mp_abort', (5 << 17) + 1)], W, 'abort(code) does not end the run with the code')


# -- grid helpers ------------------------------------------------------------------
def gridh(mod, cfg, R, k):
    sized = k in ('join', 'fbc', 'pbc')
    box = [Q(-1), Q(2), Q(1, 2), Q(5), Q(7), Q(9, 2)]
    cells, top = (4, 6, 9), (2, 1, 3)

    def scene(rank):
        S = DS(mod, cfg, sized=sized, fields=False, nsp=0, nworld=6, rank=rank, dims=(2, 3, 4))
        return S

    def diff(A, B, skip=()):
        g = {(A.gl(n) + o) % P for n, sz in (('wit_a', 256), ('wit_i', 64), ('wit_s', 8), ('wit_r', 8), ('wit_d', 8), ('wit_case', 4)) for o in range(0, sz, 4)}
        ks = (set(A.m.mem) | set(B.m.mem)) - g - set(skip)
        for a in ks:
            if A.m.mem.get(a) != B.m.mem.get(a):
                b, c = A.m.block(a), B.m.block(a)
                if b is None and c is None and a not in A.m.gaddr or b is not None and A.m.heap.blocks[b][2] == 'string':
                    continue
                return False
        return True

    def two(inst, rank, case, args, ints, fn, fargs, skip=None, chk=None, msg='does something else than the function of the grid it stands for, with these arguments'):
        A, B = scene(rank), scene(rank)
        ok = A.case(case, a=args, i=ints)
        _, okb = B.try_(fn, B.grid, *[B.m.real(x) if isinstance(x, Q) else x for x in fargs])
        if not okb:
            raise Broken(f'{fn} refuses valid arguments')
        sk = [(A.vp + mod.structs['vpic_simulation'].off(x) + o) % P for x in (skip or ()) for o in (0, 4)]
        same = ok and diff(A, B, sk)
        R('grid', f'{inst}/rank{rank}/{cfg}', bool(same), W, f'{inst.split("/")[0]} {msg}')
        if chk and ok:
            c = chk(A)
            R('grid', f'{inst}/topology/rank{rank}/{cfg}', not c, W, c or '')
    topo = lambda A: '' if tuple(sgn(A.vpl(x)) for x in ('px', 'py', 'pz')) == top else 'the simulation does not remember the topology it was given'
    for rank in (0, 4):
        av = box + [Q(x) for x in cells + top]
        if k == 'periodic':
            two('define_periodic_grid', rank, 6, av, (), 'partition_periodic_box', box + list(cells + top), ('px', 'py', 'pz'), topo)
        if k == 'absorbing':
            for pbc in (-1, -2, -4):
                two(f'define_absorbing_grid/{pbc}', rank, 7, av, (pbc,), 'partition_absorbing_box', box + list(cells + top) + [pbc], ('px', 'py', 'pz'), topo)
        if k == 'reflecting':
            two('define_reflecting_grid', rank, 8, av, (), 'partition_metal_box', box + list(cells + top), ('px', 'py', 'pz'), topo)
        if k == 'size':
            two('size_domain', rank, 14, [Q(3), Q(4), Q(5)], (), 'size_grid', [3, 4, 5])
        for d in FACES:
            if k == 'join':
                two(f'join_domain/{d}', rank, 15, [Q(3)], (bnd(d),), 'join_grid', [bnd(d), 3])
            if k == 'fbc':
                two(f'set_domain_field_bc/{d}', rank, 16, [], (bnd(d), -3), 'set_fbc', [bnd(d), -3])
            if k == 'pbc':
                two(f'set_domain_particle_bc/{d}', rank, 17, [], (bnd(d), -2), 'set_pbc', [bnd(d), -2])
    if k == 'size':
        S = scene(0)
        ok = S.case(1, a=(Q(3), Q(7, 2)))
        R('grid', f'define_units/{cfg}', bool(ok and (S.L(S.grid, 'grid', 'cvac'), S.L(S.grid, 'grid', 'eps0')) == (S.m.real(Q(3)), S.m.real(Q(7, 2)))), W, 'define_units does not set the speed of light and the permittivity')
        for c, a, i in ((2, (Q(1, 4), Q(9)), (41,)), (42, (Q(1, 8),), ())):
            ok = S.case(c, a=a, i=i)
            w = (S.m.real(a[0]), S.m.real(a[1] if len(a) > 1 else Q(0)), (i + (0,))[0])
            R('grid', f'define_timestep/{c}/{cfg}', bool(ok and tuple(S.L(S.grid, 'grid', x) for x in ('dt', 't0', 'step')) == w), W, 'define_timestep does not set the time step, the start time and the step')


# -- materials -----------------------------------------------------------------------
MATS = ['epsx', 'epsy', 'epsz', 'mux', 'muy', 'muz', 'sigmax', 'sigmay', 'sigmaz', 'zetax', 'zetay', 'zetaz']


def materials(mod, cfg, R):
    S = DS(mod, cfg, fields=False, nsp=0)
    m, st = S.m, mod.structs
    wh = 'src/material/material.cc'
    head = lambda: S.vpl('material_list')
    made = []

    def looked(inst):
        bad = ''
        for k, (a, n) in enumerate(made):
            if not S.case(12, s=n) or S.r() != a:
                bad = bad or f'material "{n}" is not found by its name among {len(made)}'
            if not S.case(13, i=(k,)) or S.r() != a:
                bad = bad or f'material {k} is not found by its id among {len(made)}'
            if m.load((a + st['material'].off('id')) % P) not in (k,) and sgn(S.L(a, 'material', 'id')) != k:
                bad = bad or f'material {k} has another id'
        for n in ('no', 'vacuu', 'vacuum0'):
            if not S.case(12, s=n) or S.r() != 0:
                bad = bad or f'a material is found by the unknown name "{n}"'
        if not S.case(13, i=(len(made),)) or S.r() != 0:
            bad = bad or 'a material is found by an unknown id'
        if not S.case(12, s=0) or S.r() != 0:
            bad = bad or 'a material is found without a name'
        R('list', f'lookup/{inst}', not bad, wh, bad)
    looked(f'material/0/{cfg}')
    for c, n, a in ((43, 'vacuum', [Q(3)]), (3, 'glass', [Q(2), Q(3), Q(5), Q(7)]), (44, 'tensor', [Q(k + 2, 3) for k in range(9)]), (4, 'full', [Q(k + 2, 5) for k in range(12)])):
        old = head()
        cnt = len(S.registry())
        ok = S.case(c, a=a, s=n)
        x = S.r()
        inst = f'material/{n}/{cfg}'
        if not ok:
            R('define', inst, False, wh, 'a valid material is refused')
            continue
        b = a + [Q(1), Q(0), Q(0)][len(a) - 1:] if len(a) < 9 else a + [Q(0)] * (12 - len(a))
        w = [v for v in b for _ in range(3)] if len(b) == 4 else b
        bad = [k for k, v in zip(MATS, w) if S.L(x, 'material', k) != m.real(v)]
        R('define', inst, not bad, wh, f'{bad[0]} of the material is not what the deck asked for' if bad else '')
        made.append((x, n))
        ok = S.str(S.L(x, 'material', 'name')) == n and sgn(S.L(x, 'material', 'id')) == len(made) - 1 and S.L(x, 'material', 'next') == old and head() == x and S.nreg(x) == 1
        R('define', 'listed/' + inst, ok, wh, 'the material is not the new head of the list with its name and the next id, known to the checkpoint service')
        looked(f'material/{len(made)}/{cfg}')
    ml = (S.vp + st['vpic_simulation'].off('material_list')) % P
    refuse = []
    refuse.append(('nameless', lambda: S.case(3, a=[Q(1)] * 4, s='')))
    refuse.append(('without a name', lambda: S.case(3, a=[Q(1)] * 4, s=0)))
    refuse.append(('of a name already there', lambda: S.case(3, a=[Q(1)] * 4, s='glass')))
    refuse.append(('already in the list', lambda: S.try_('append_material', made[-1][0], ml)[1]))
    refuse.append(('that ends the list already', lambda: S.try_('append_material', made[0][0], ml)[1]))
    refuse.append(('that is none', lambda: S.try_('append_material', 0, ml)[1]))
    for w, f in refuse:
        h = head()
        ok = f()
        R('list', f'refuse/material {w}/{cfg}', not ok and head() == h, wh, f'a material {w} is accepted')
    S.case(40)
    mx = S.ii(6)
    for o, want in ((mx - 2, True), (mx - 1, False)):
        keep = S.L(head(), 'material', 'id')
        S.setm(head(), 'material', 'id', o)
        h = head()
        ok = S.case(43, a=[Q(1)], s=f'last{o}')
        R('list', f'room/material/{o - mx}/{cfg}', ok == want and (not ok or sgn(S.L(head(), 'material', 'id')) == o + 1), wh, 'the number of materials is not limited to what a material id can hold')


# -- species -----------------------------------------------------------------------------
def specieslist(mod, cfg, R):
    S = DS(mod, cfg, nsp=0)
    m, st = S.m, mod.structs
    wh = 'src/species_advance/species_advance.cc'
    head = lambda: S.vpl('species_list')
    S.case(40)
    mp = S.ii(7)
    made = []

    def looked(inst):
        bad = ''
        for k, (a, n) in enumerate(made):
            if not S.case(10, s=n) or S.r() != a:
                bad = bad or f'species "{n}" is not found by its name among {len(made)}'
            if not S.case(11, i=(k,)) or S.r() != a:
                bad = bad or f'species {k} is not found by its id among {len(made)}'
        for n in ('no', 'electro', 'electron2'):
            if not S.case(10, s=n) or S.r() != 0:
                bad = bad or f'a species is found by the unknown name "{n}"'
        if not S.case(11, i=(len(made),)) or S.r() != 0:
            bad = bad or 'a species is found by an unknown id'
        if not S.case(10, s=0) or S.r() != 0:
            bad = bad or 'a species is found without a name'
        R('list', f'lookup/{inst}', not bad, wh, bad)
    looked(f'species/0/{cfg}')
    big = 25 * 16 * (mp + 1)
    for n, q, ms, np, nm, iv, oop in (('electron', Q(-1), Q(1), 100, 30, 20, 1), ('ion', Q(2), Q(25), 11, -1, 0, 0), ('e', Q(-3, 2), Q(1, 2), big, -1, -7, 1), ('photon', Q(1), Q(3), 0, 0, 5, 0), ('muon', Q(1), Q(3), 500, -1, 5, 0), ('ion2', Q(1), Q(3), big // 2 + 25, -5, 5, 0)):
        old = head()
        inst = f'species/{n}/{cfg}'
        ok = S.case(5, a=[q, ms, Q(np), Q(nm), Q(iv), Q(oop)], s=n)
        if not ok:
            R('define', inst, False, wh, 'a valid species is refused')
            continue
        x = S.r()
        wnm = nm if nm >= 0 else max(int(Q(2 * np, 25)), 16 * (mp + 1))
        wnp, wnm = max(np, 1), max(wnm, 1)
        g = lambda k: S.L(x, 'species', k)
        want = [('q', m.real(q)), ('m', m.real(ms)), ('max_np', wnp), ('max_nm', wnm), ('sort_interval', iv % P), ('sort_out_of_place', oop), ('np', 0), ('nm', 0), ('g', S.grid % P), ('last_sorted', -(1 << 63) % P)]
        bad = [k for k, v in want if g(k) != v]
        R('define', inst, not bad, wh, f'{bad[0]} of the species is {sgn(g(bad[0]))}, not what the deck asked for' if bad else '')
        sz = [(k, S.size(g(k)), n_) for k, n_ in (('p', wnp * st['particle'].size), ('pm', wnm * st['particle_mover'].size), ('partition', 4 * (S.nv + 1)))]
        bad = [k for k, s, n_ in sz if s is None or s[0] < n_ or (s[1] or 0) % 128]
        R('define', 'room/' + inst, not bad, wh, f'the species has no aligned room for its {bad[0]}' if bad else '')
        made.append((x, n))
        ok = S.str(g('name')) == n and sgn(g('id')) == len(made) - 1 and g('next') == old and head() == x and S.nreg(x) == 1
        R('define', 'listed/' + inst, ok, wh, 'the species is not the new head of the list with its name and the next id, known to the checkpoint service')
        looked(f'species/{len(made)}/{cfg}')
    sl = (S.vp + st['vpic_simulation'].off('species_list')) % P
    one = [Q(1), Q(1), Q(5), Q(5), Q(1), Q(1)]
    g2 = S.call('new_grid')
    S.call('size_grid', g2, *S.dims)
    g3 = S.call('new_grid')
    R1 = m.real(Q(1))
    other = S.call('species', m.newstr('foreign'), R1, R1, 4, 4, 0, 0, g2)
    refuse = [('nameless', lambda: S.case(5, a=one, s='')), ('without a name', lambda: S.case(5, a=one, s=0)), ('of a name already there', lambda: S.case(5, a=one, s='ion')),
              ('already in the list', lambda: S.try_('append_species', made[-1][0], sl)[1]), ('that ends the list already', lambda: S.try_('append_species', made[0][0], sl)[1]),
              ('of another grid', lambda: S.try_('append_species', other, sl)[1]), ('that is none', lambda: S.try_('append_species', 0, sl)[1]),
              ('without a grid', lambda: S.try_('species', m.newstr('x'), R1, R1, 4, 4, 0, 0, 0)[1]), ('on a grid without cells', lambda: S.try_('species', m.newstr('x'), R1, R1, 4, 4, 0, 0, g3)[1])]
    for w, f in refuse:
        h = head()
        ok = f()
        R('list', f'refuse/species {w}/{cfg}', not ok and head() == h, wh, f'a species {w} is accepted')
    n = S.call('num_species', head())
    R('list', f'count/species/{cfg}', sgn(n) == len(made) and sgn(S.call('num_species', 0)) == 0, wh, 'the species are miscounted')


# -- boundary handlers, emitters, collision models -----------------------------------------
def handlers(mod, cfg, R):
    S = DS(mod, cfg, nsp=2)
    m, st = S.m, mod.structs
    sl = S.vpl('species_list')
    for what, case, arg, mem, el, num, app, wh in (('particle_bc', 37, 'wit_b1', 'particle_bc_list', 'particle_bc', 'num_particle_bc', 'append_particle_bc', 'src/boundary/boundary.cc'),
                                              ('emitter', 36, 'wit_em', 'emitter_list', 'emitter', 'num_emitter', 'append_emitter', 'src/emitter/emitter.cc'),
                                              ('collision_op', 38, 'wit_r', 'collision_op_list', 'collision_op', 'num_collision_op', 'append_collision_op', 'src/collision/collision.cc')):
        lp = (S.vp + st['vpic_simulation'].off(mem)) % P
        made = []

        def new(k):
            if what == 'particle_bc':
                return S.call('absorb_tally', sl, S.fa) if k % 2 else S.call('maxwellian_reflux', sl, S.ent)
            if what == 'emitter':
                return S.call('child_langmuir', sl, S.ia, S.fa, S.aa, S.ent, 2 + k, *[m.real(Q(1, x)) for x in (3, 5, 7, 9)])
            return S.call('langevin', m.real(Q(1, 3)), m.real(Q(1, 4)), sl, S.ent, 5)
        chain = lambda: walk(S, m.load(lp), el)
        for k in range(4):
            a = new(k)
            ok = S.case(case, **{arg: a})
            made.insert(0, a)
            inst = f'{what}/{k}/{cfg}'
            R('define', 'listed/' + inst, bool(ok and S.r() == a and chain() == made), wh, f'a new {what} does not become the head of the list, before the {k} others')
            c = S.call(num, m.load(lp))
            R('list', f'count/{inst}', sgn(c) == k + 1, wh, f'{k + 1} of {what} are counted as {sgn(c)}')
            if what == 'particle_bc':
                ids = [sgn(S.L(x, el, 'id')) for x in made]
                R('define', 'id/' + inst, ids == list(range(-3 - k, -2)), wh, f'the ids of the boundary handlers are {ids}, not distinct and below the built-in conditions')
                v = S.call('get_particle_bc_id', a)
                R('list', f'id/{inst}', v == ids[0] % P, wh, 'the id of a boundary handler is not the one it got')
            for j in sorted({0, len(made) - 1}):
                before = list(made)
                h = m.load(lp)
                v, ok = S.try_(app, made[j], lp)
                if what == 'emitter':
                    good = ok and v == made[j] and chain() == before
                    R('list', f'again/{inst}/{j}', good, wh, 'an emitter that is in the list already is put into it again or refused')
                    if not good:
                        return
                else:
                    R('list', f'again/{inst}/{j}', not ok and chain() == before, wh, f'a {what} that is in the list already is put into it again')
                    if ok:
                        return
        v, ok = S.try_(app, 0, lp)
        R('list', f'refuse/no {what}/{cfg}', not ok, wh, f'no {what} at all is accepted')
        R('list', f'count/none/{what}/{cfg}', sgn(S.call(num, 0)) == 0, wh, f'an empty list of {what} is counted as one that is not')
    for v, w in ((0, 0), (-1, -1), (-2, -2)):
        r = S.call('get_particle_bc_id', v)
        R('list', f'builtin/{v}/{cfg}', r == w % P, 'src/boundary/boundary.cc', f'the id of the built-in condition {v} is {sgn(r)}')


def walk(S, a, el):
    out = []
    while a:
        out.append(a)
        if len(out) > 20:
            return None
        a = S.L(a, el, 'next')
    return out


# -- field array -----------------------------------------------------------------------------
def fieldarray(mod, cfg, R, dims):
    st = mod.structs
    hs = st['hydro'].size
    for own in (False, True, None):
        S = DS(mod, cfg, fields=False, nsp=0, dims=dims)
        m = S.m
        inst = f'{"given" if own else "standard" if own is False else "default"}/{"x".join(map(str, dims))}/{cfg}'
        ok = S.case(45)
        R('define', f'early/{inst}', not ok, W, 'a field array is made before there are materials')
        S = DS(mod, cfg, fields=False, nsp=0, dims=dims)
        m = S.m
        S.case(43, a=[Q(3)], s='one')
        S.case(3, a=[Q(3), Q(2), Q(1), Q(1)], s='two')
        fa = S.call('new_standard_field_array', S.grid, S.vpl('material_list'), m.real(Q(1, 16))) if own else None
        nreg = len(S.registry())
        ok = S.case(45) if own is None else S.case(41, a=[Q(1, 8)], wit_r=fa or 0)
        if not ok:
            R('define', f'field_array/{inst}', False, W, 'a field array is refused')
            continue
        f = S.vpl('field_array')
        bad = ''
        if own and f != fa:
            bad = 'the field array given is not used'
        if not own:
            pr = S.L(f, 'field_array', 'params')
            d = m.load((pr + st['sfa_params'].off('damp')) % P)
            if d != m.real(Q(0) if own is None else Q(1, 8)):
                bad = 'the field array does not get the damping of the deck'
        want = nreg + 3 + (not own)
        for k in ('field_array', 'interpolator_array', 'accumulator_array', 'hydro_array'):
            a = S.vpl(k)
            if a == 0 or S.L(a, k, 'g') != S.grid % P:
                bad = bad or f'the {k} is not made on the grid of the simulation'
            elif S.nreg(a) != 1:
                bad = bad or f'the {k} is not known to the checkpoint service'
        if not bad and len(S.registry()) != want:
            bad = 'other objects than the four arrays are made'
        R('define', f'field_array/{inst}', not bad, W, bad)
        mp = S.L(S.grid, 'grid', 'mp')
        n1 = [x + 1 for x in dims]
        bad = ''
        for d in FACES:
            ax = [abs(x) for x in d].index(1)
            need = hs * n1[(ax + 1) % 3] * n1[(ax + 2) % 3]
            for w in ('rbuf', 'sbuf'):
                sz = m.load((m.load((mp + st['mp'].off(w + '_sz')) % P) + 4 * bnd(d)) % P)
                b = m.load((m.load((mp + st['mp'].off(w)) % P) + 8 * bnd(d)) % P)
                if b == 0 or sgn(sz) < need or S.size(b)[0] < need:
                    bad = bad or f'no room for a plane of the hydro array in the buffers of face {d}'
        R('define', f'buffers/{inst}', not bad, W, bad)
    S = DS(mod, cfg, sized=False, nsp=0)
    S.case(43, a=[Q(3)], s='one')
    R('define', f'nogrid/{cfg}', not S.case(45), W, 'a field array is made before there is a grid')
