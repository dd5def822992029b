import math, itertools
from fractions import Fraction
import proj, rngan
from rngan import fresh, state_is, Stream, Interp, Lin, BV, Undecided, Err, Cut, Oracle, paths, NB, mk, bits_of, ev
from bndan import run_tasks

EXPLAIN = ('the generator sources are interpreted over bit-precise abstract values: every bit of the state is an unknown and every value a vector of GF(2)-affine forms of those bits, an affine combination of '
           'them (integers, reals) or a constant; branches on unknowns fork into all cases. The refresh is compared with the SFMT recurrence, draws with the byte stream it defines, real deviates with the '
           'documented lattice of their interval, permutations by the exact measure of the draws that lead to each, seeds by their affine form in the base seed.')
RULES = {
    'refresh': 'the state refresh is the SFMT recurrence for the period parameter, in the vector and the portable form',
    'draw': 'a draw returns the next aligned bytes of the stream, refreshes exactly when they are exhausted and moves the position past them',
    'fill': 'filling an array draws its elements in order at the given stride and writes nothing else',
    'interval': 'a real deviate is uniform on the documented lattice of its interval, exactly represented, end points as documented',
    'seed': 'seeding expands the seed by the documented recurrence, certifies the period and marks the stream exhausted',
    'pool': 'local generators of all ranks and synchronous generators get distinct seeds, and synchronous ones the same on every rank',
    'perm': 'every order of the elements arises from draws of the same measure; no element is lost and nothing else is written',
    'normal': 'the normal generators follow the ziggurat: table equations, acceptance tests, wedge and tail, sign',
}
INTS = [('c', 1, 1), ('uc', 1, 0), ('h', 2, 1), ('uh', 2, 0), ('i', 4, 1), ('ui', 4, 0), ('l', 8, 1), ('ul', 8, 0),
        ('i8', 1, 1), ('u8', 1, 0), ('i16', 2, 1), ('u16', 2, 0), ('i32', 4, 1), ('u32', 4, 0), ('i64', 8, 1), ('u64', 8, 0)]
RNG = ('p', 'rng', 0)
MODS = {}


def mods():
    if not MODS:
        MODS.update(rngan.modules())
    return MODS


def loc(mod, fn):
    f = mod.func(fn)
    return f'{f.file}:{f.line} {fn}' if f else fn


def guard(fn):
    def g(*a):
        try:
            return fn(*a)
        except Undecided as e:
            return None, str(e)
        except Err as e:
            return False, 'takes the error path for legal arguments'
    return g


def shifted(bits, rs):
    return tuple(bits[rs:]) + (0,) * rs


@guard
def t_int(mod, pre, sz, rs, n0):
    m = fresh(mod, n0)
    st = Stream(n0)
    v = m.call(pre + 'rand', [RNG])
    want = shifted(st.next(sz), rs)
    if bits_of(m.ints(v, 8 * sz), 8 * sz) != want:
        return False, f'with {n0} bytes used the result is not the next {8 * sz} bits of the stream' + (' shifted to be non-negative' if rs else '')
    e = state_is(m, st)
    return (False, f'with {n0} bytes used: {e}') if e else (True, '')


def lattice(L, var, dbl, draw):
    """None if L is the documented deviate"""
    B = {'': 23, '_c0': 24, '_c1': 24, '_c': 24}[var] if not dbl else {'': 52, '_c0': 53, '_c1': 53, '_c': 53}[var]
    if not isinstance(L, Lin):
        return 'is not an affine function of the drawn bits'
    step = Fraction(1, 1 << B)
    c0 = {'': step / 2, '_c0': 0, '_c1': step, '_c': 0}[var]
    if L.c != c0:
        return f'starts at {float(L.c)!r}, the interval at {float(c0)!r}'
    want = sorted([step * (1 << k) for k in range(B)] + ([step] if var == '_c' else []))
    got = sorted(L.d.values())
    if got != want:
        return f'has lattice weights {[float(x) for x in got[:3]]}...{float(got[-1]) if got else 0!r} ({len(got)} bits), documented are {B} bits of step {float(step)!r}'
    if len(set(L.d)) != len(L.d) or not set(L.d) <= set(draw):
        return 'does not use distinct bits of the draw'
    if not L.ex:
        return 'is rounded, so an excluded end point can occur'
    return None


@guard
def t_real(mod, ty, var, n0):
    m = fresh(mod, n0)
    st = Stream(n0)
    v = m.call(f'{ty}rand{var}', [RNG])
    dr = st.next(4 if ty == 'f' else 8)
    e = lattice(v, var, ty == 'd', dr) or state_is(m, st)
    return (False, f'{ty}rand{var} {e}') if e else (True, '')


def neglog(v, dbl, dr):
    if not isinstance(v, Lin) or v.c != 0 or len(v.d) != 1:
        return 'is not minus a logarithm'
    (k, c), = v.d.items()
    if c != -1 or k[0] != 'log':
        return 'is not minus a logarithm'
    _, c, d, w = k[1]
    return lattice(Lin(c, dict(d), None, v.ex), '_c1', dbl, dr)


@guard
def t_exp(mod, ty, n0):
    m = fresh(mod, n0)
    st = Stream(n0)
    v = m.call(f'{ty}rande', [RNG])
    e = neglog(v, ty == 'd', st.next(4 if ty == 'f' else 8)) or state_is(m, st)
    return (False, f'{ty}rande {e}') if e else (True, '')


@guard
def t_fill(mod, name, sz, n0, stride, n, chk):
    m = fresh(mod, n0)
    st = Stream(n0)
    X = ('p', 'x', 0)
    r = m.call(name, [RNG, X, stride, n])
    if r != X:
        return False, 'does not return the array'
    own = set()
    for k in range(n):
        a = k * stride * sz
        own.update(('x', a + j) for j in range(sz))
        try:
            v = m.load(('p', 'x', a), sz, 'i%d' % (8 * sz))
        except Undecided:
            return False, f'element {k} of {n} at stride {stride} is not written'
        e = chk(m, v, st)
        if e:
            return False, f'element {k} of {n}: {e}'
    bad = sorted(x for x in m.touched if x[0] == 'x' and x not in own)
    if bad:
        return False, f'writes at byte {bad[0][1]} outside the {n} elements at stride {stride}'
    e = state_is(m, st)
    return (False, e) if e else (True, '')


def ck_int(sz, rs):
    return lambda m, v, st: None if bits_of(m.ints(v, 8 * sz), 8 * sz) == shifted(st.next(sz), rs) else 'is not the next draw'


def ck_real(ty, var):
    return lambda m, v, st: lattice(v, var, ty == 'd', st.next(4 if ty == 'f' else 8))


def ck_exp(ty):
    return lambda m, v, st: neglog(v, ty == 'd', st.next(4 if ty == 'f' else 8))


@guard
def t_seed(mod):
    bad = []
    seen = set()

    def one(o):
        m = fresh(mod, 77, o)
        seed = m.inp(32, 'seed')
        r = m.call('seed_rng', [RNG, BV(seed)])
        if r != RNG:
            return 'does not return the generator'
        x = Interp(mod)                      # the documented expansion, in the same opaque operations
        x.fresh, x.nin = m.fresh, m.nin
        u = [BV(seed)]
        for n in range(1, NB // 4):
            p = x.ints(u[-1], 32)
            b = bits_of(p, 32)
            q = mk([b[i] ^ (b[i + 30] if i + 30 < 32 else 0) for i in range(32)])
            L = x.tolin(q, 32)
            L = x.norm(Lin(1812433253 * L.c + n, {k: 1812433253 * c for k, c in L.d.items()}, 32))
            u.append(x.tobits(L, 32))
        par = rngan.SFMT[11213]['parity']
        P, D = 0, 0
        diff = []
        for n in range(NB // 4):
            g = m.load(('p', 'rng', 4 * n), 4, 'i32')
            G, U = bits_of(m.ints(g, 32), 32), bits_of(x.ints(u[n], 32), 32)
            for i in range(32):
                if G[i] != U[i]:
                    if G[i] ^ U[i] != 1:
                        return f'word {n} of the state is not the documented expansion of the seed'
                    diff.append((n, i))
                if n < 4 and (par[n] >> i) & 1:
                    P ^= G[i]
        if len(diff) > 1 or any(n > 3 for n, i in diff):
            return f'{len(diff)} bits of the state differ from the documented expansion'
        if m.reduce(P) != 1:
            return 'the parity that certifies the period is not enforced'
        if diff and m.reduce(P ^ 1) == 1:
            return 'a state that already has the period is changed'
        seen.add(len(diff))
        if m.load(('p', 'rng', m.noff), 4, 'i32') != NB:
            return 'the stream is not marked exhausted: the first draws would be the raw seed expansion'
        return None
    for e in paths(one):
        if e:
            return False, e
    if seen != {0, 1}:
        return False, 'the period certification never acts'
    return True, ''


@guard
def t_pool(mod, W, R):
    st = mod.structs['rng_pool']

    def seeds(rank, sync):
        m = Interp(mod)
        m.store(('p', '_world_rank', 0), rank, 4)
        m.store(('p', '_world_size', 0), W, 4)
        m.store(('p', 'rp', st.off('n_rng')), R, 4)
        m.store(('p', 'rp', st.off('rng')), ('p', 'tab', 0), 8)
        for k in range(R):
            m.store(('p', 'tab', 8 * k), ('p', f'g{k}', 0), 8)
        base = BV(m.inp(32, 'base'))
        got = {}

        def sr(m, V):
            L = m.tolin(V[1], 32)
            got.setdefault(V[0], []).append((L.c, tuple(sorted(L.d.items()))))
            return V[0]
        m.stub['seed_rng'] = sr
        m.call('seed_rng_pool', [('p', 'rp', 0), base, sync])
        if set(got) != {('p', f'g{k}', 0) for k in range(R)} or any(len(v) != 1 for v in got.values()):
            return None
        return [got[('p', f'g{k}', 0)][0] for k in range(R)]
    loc = [seeds(r, 0) for r in range(W)]
    syn = [seeds(r, 1) for r in range(W)]
    if any(x is None for x in loc + syn):
        return False, 'not every generator of the pool is seeded exactly once'
    if any(x != syn[0] for x in syn):
        return False, f'synchronous generators get different seeds on different ranks of {W}'
    al = [x for l in loc for x in l] + syn[0]
    lin = set(d for _, d in al)
    if len(lin) != 1:
        return None, 'seeds are not one affine function of the base'
    cs = [c for c, _ in al]
    if len(set(cs)) != len(cs):
        return False, f'two generators of {W} ranks x {R} (+ synchronous) share a seed'
    K = min((c for _, c in lin.pop()), default=0)
    span = max(cs) - min(cs)
    if span >= K:
        return False, f'seeds of one base seed overlap those of the next ({W} ranks x {R}: spread {span}, spacing {K})'
    return True, ''


@guard
def t_newpool(mod, W, R):
    st = mod.structs['rng_pool']
    m = Interp(mod)
    m.store(('p', '_world_rank', 0), W - 1, 4)
    m.store(('p', '_world_size', 0), W, 4)
    base = BV(m.inp(32, 'base'))
    cnt = [0]
    seeded = {}

    def alloc(m, V):
        cnt[0] += 1
        p = [v for v in V if isinstance(v, tuple) and v[1].startswith(('alloca', 'obj'))][0]
        m.store(p, ('p', f'obj{cnt[0]}', 0), 8)

    def sr(m, V):
        seeded[V[0]] = V[1]
        return V[0]
    reg = []
    m.stub.update({'util_malloc': alloc, 'util_malloc_aligned': alloc, 'seed_rng': sr, 'register_object': lambda m, V: reg.append(V[0])})
    for nm in list(mod.decls):
        if 'register_object' in nm or nm.startswith('_Z') and 'register' in nm:
            m.stub[nm] = lambda m, V: reg.append(V[0])
    rp = m.call('new_rng_pool', [R, base, 0])
    if m.load(('p', rp[1], st.off('n_rng')), 4, 'i32') != R:
        return False, 'the pool does not hold the number of generators asked for'
    tab = m.load(('p', rp[1], st.off('rng')), 8, 'ptr')
    gs = [m.load(('p', tab[1], 8 * k), 8, 'ptr') for k in range(R)]
    if len(set(gs)) != R:
        return False, 'generators of the pool are shared'
    if any(isinstance(seeded.get(g), int) or g not in seeded for g in gs):
        return False, 'a generator of a new pool is not seeded from the seed of the pool'
    return True, ''


def permtest(mod, build, n, sz):
    """distribution of the orders; build(m) -> (call, read)"""
    acc = {}
    w = {}

    def one(o):
        m = fresh(mod, 0, o)
        m.budget = n
        run, read = build(m)
        try:
            r = run()
        except Cut:
            return None
        e = read()
        if isinstance(e, str):
            return e
        ms = Fraction(1)
        for b, (lo, hi) in m.iv.items():
            ms *= Fraction(hi - lo + 1, 1 << len([x for x in b if x > 1]))
        w.setdefault(m.ndraw, {})
        w[m.ndraw][e] = w[m.ndraw].get(e, 0) + ms
        return None
    for e in paths(one, 200000):
        if e:
            return False, e
    full = set(itertools.permutations(range(n)))
    for k, d in sorted(w.items()):
        if set(d) != full:
            miss = sorted(full - set(d))
            if set(d) - full:
                return False, f'the result for {n} elements is not a permutation: {sorted(set(d) - full)[0]}'
            return False, f'order {miss[0]} of {n} elements never arises ({len(miss)} of {len(full)} missing)'
        if len(set(d.values())) != 1:
            lo, hi = min(d.values()), max(d.values())
            return False, f'orders of {n} elements are not equally likely: {float(lo):.9g} to {float(hi):.9g}'
    if not w:
        return False, 'no draw is accepted'
    tot = sum(list(w[min(w)].values()))
    if tot < Fraction(1, 2) ** n:
        return False, f'most draws are rejected ({float(tot):.3g} accepted)'
    return True, ''


@guard
def t_randperm(mod, n):
    def build(m):
        def run():
            r = m.call('randperm', [RNG, ('p', 'x', 0), n])
            return r

        def read():
            if any(o == 'x' and not 0 <= a < 4 * n for o, a in m.touched):
                return 'writes outside the array'
            return tuple(m.load(('p', 'x', 4 * k), 4, 'i32') for k in range(n))
        return run, read
    return permtest(mod, build, n, 4)


@guard
def t_shuffle(mod, sz, stride, n):
    def build(m):
        tot = stride * n
        for a in range(tot):
            m.store(('p', 'x', a), 200 + a % 50, 1)
        for k in range(n):
            for j in range(sz):
                m.store(('p', 'x', k * stride + j), (k * 16 + j) & 255, 1)
        m.touched.clear()

        def run():
            return m.call('shuffle', [RNG, ('p', 'x', 0), sz, stride, n])

        def read():
            own = set(k * stride + j for k in range(n) for j in range(sz))
            bad = [a for o, a in m.touched if o == 'x' and a not in own]
            if bad:
                return f'writes byte {bad[0]} between or outside the elements (size {sz}, stride {stride})'
            r = []
            for k in range(n):
                b = [m.load(('p', 'x', k * stride + j), 1, 'i8') for j in range(sz)]
                if [x & 15 for x in b] != list(range(sz)) or len(set(x >> 4 for x in b)) != 1:
                    return f'an element is torn (size {sz}, stride {stride})'
                r.append(b[0] >> 4)
            return tuple(r)
        return run, read
    return permtest(mod, build, n, 8)


def table(mod, name):
    g = mod.globals.get(name)
    if not g or not g.get('init'):
        raise Undecided('no table ' + name)
    return [float(x[1]) for x in g['init'][2]]


def t_tables(mod, ty):
    """[(label, ok, msg)]"""
    N, tol = (64, 3e-7) if ty == 'f' else (256, 3e-15)
    X, Y = table(mod, f'{ty}randn_zig_x'), table(mod, f'{ty}randn_zig_y')
    out = []
    if len(X) != N + 1 or len(Y) != N + 1:
        return [('size', False, f'{len(X)} and {len(Y)} entries, {N + 1} regions boundaries needed')]
    r = X[N - 1]
    v = r * math.exp(-r * r / 2) + math.exp(-r * r / 2) / r
    f = lambda x: math.exp(-x * x / 2)
    out.append(('x[0]', X[0] == 0, f'first boundary is {X[0]}'))
    out.append((f'x[{N}]', abs(X[N] * f(r) / v - 1) < 40 * tol, f'last boundary {X[N]} does not give the base region the common area'))
    for i in range(N + 1):
        out.append((f'y[{i}]', abs(Y[i] - f(X[i])) <= 4 * tol * (1 + X[i] * X[i]) * f(X[i]), f'y[{i}]={Y[i]} is not exp(-x^2/2) of x[{i}]={X[i]}'))
    for i in range(N - 1):
        a = X[i + 1] * (f(X[i]) - f(X[i + 1]))
        out.append((f'area[{i}]', abs(a / v - 1) < 60 * tol, f'region {i} has area {a}, the base region {v}'))
    return out


def t_normal(mod, ty, regions):
    """follow the ziggurat on every path: [(label, ok, msg)]"""
    N = 64 if ty == 'f' else 256
    nb = 4 if ty == 'f' else 8
    W = 8 * nb
    X, Y = table(mod, f'{ty}randn_zig_x'), table(mod, f'{ty}randn_zig_y')
    R = X[N - 1]
    import random
    rnd = random.Random(5)
    tol = 3e-6 if ty == 'f' else 1e-12
    res = {}
    cov = {}

    def ok(i, good, msg):
        a = res.setdefault(i, [True, ''])
        if not good and a[0]:
            a[0], a[1] = False, msg

    def one(o, reg):
        m = fresh(mod, 0, o)
        m.wrap = True
        m.budget = 3 if reg == N - 1 else 2
        d0 = Stream(0).next(nb)
        for k in range(N.bit_length() - 1):
            m.assume(d0[1 + k] ^ ((reg >> k) & 1))
        try:
            v = m.call(f'{ty}randn', [RNG])
        except Cut:
            v = None
        except Err:
            ok(0, False, 'takes the error path')
            return
        st = Stream(0)
        D = [st.next(nb) for _ in range(4)]
        # the first word decides sign and region: find the free assignment consistent with the path
        for trial in range(2):
            asg = rnd.getrandbits(4 * W) << 1 | 1
            for p, f in m.lin:
                if bin((f & ~(1 << p)) & asg).count('1') & 1:
                    asg |= 1 << p
                else:
                    asg &= ~(1 << p)
            a = [sum(((bin(b & asg).count('1') & 1) << k) for k, b in enumerate(d)) for d in D]
            u = a[0]
            s, i = u & 1, (u >> 1) & (N - 1)
            sh = 8 if ty == 'f' else 11
            cb = 24 if ty == 'f' else 53
            j = (u >> sh) / 2.0 ** cb
            x = j * X[i + 1]
            cov.setdefault(i, set())
            con = lambda w: ((w >> (W - cb)) + (w & 1)) / 2.0 ** cb
            want = [(x, X[i])]
            if i != N - 1:
                x2 = x
                y = Y[i] + (Y[i + 1] - Y[i]) * con(a[1])
                nd = 2
            else:
                x2 = R - math.log(((a[2] >> (W - cb)) + 1) / 2.0 ** cb) / R
                y = con(a[1]) * math.exp(-R * (x2 - R / 2))
                nd = 3
            want.append((y, math.exp(-x2 * x2 / 2)))
            C = m.conds
            close = lambda p, q, sc=1.0: abs(p - q) <= tol * (abs(p) + abs(q)) + tol * sc
            for k, (l, r, oc) in enumerate(C[:2]):
                gl, gr = ev(l, asg), ev(r, asg)
                wl, wr = want[k]
                if not (close(gl - gr, wl - wr, abs(wl) + abs(wr)) or (wl - wr) and close((gl - gr) / (wl - wr), 1)):
                    ok(i, False, f'region {i}: {"acceptance" if k == 0 else "rejection"} test {"x < x_i" if k == 0 else "y < exp(-x^2/2)"} compares {gl:.8g} with {gr:.8g}, the ziggurat {wl:.8g} with {wr:.8g}')
                    return
            oc = tuple(c[2] for c in C[:2])
            if v is None:
                if oc != (0, 0):
                    ok(i, False, f'region {i}: draws again after tests {oc} (1 = below)')
                cov[i].add('reject')
                return
            if m.ndraw > nd or (oc == (0, 0)):
                # the second round: nothing more to learn from it
                if oc != (0, 0):
                    ok(i, False, f'region {i}: draws again after an accepted point')
                cov[i].add('reject')
                return
            if oc == (1,):
                want_x, kind, n_d = x, 'accept', 1
            elif oc == (0, 1):
                want_x, kind, n_d = x2, 'wedge', nd
            else:
                ok(i, False, f'region {i}: returns after tests {oc} (1 = below)')
                return
            if m.ndraw != n_d:
                ok(i, False, f'region {i}: {m.ndraw} draws where {n_d} are used')
                return
            g = ev(v, asg)
            if not close(abs(g), want_x) and not close(abs(g), abs(want_x), abs(want_x)):
                ok(i, False, f'region {i}: returns {g:.9g} for the point x={want_x:.9g}')
                return
            cov[i].add((kind, 1 if g > 0 else -1 if g < 0 else 0))
            sg[s] = sg.get(s, set()) | {1 if g > 0 else -1 if g < 0 else 0}
    sg = {}
    for reg in regions:
        paths(lambda o: one(o, reg), 2000)
    out = []
    for i in regions:
        c = cov.get(i, set())
        a = res.get(i, [True, ''])
        miss = {('accept', 1), ('accept', -1), ('wedge', 1), ('wedge', -1), 'reject'} - c
        if i == 0:
            miss -= {('accept', 1), ('accept', -1)}
        out.append((f'region{i}', a[0] and not miss, a[1] or f'region {i} never reaches {sorted(map(str, miss))}'))
    sg = {k: v - {0} for k, v in sg.items()}
    out.append((f'sign{regions[0]}', sg.get(0) != sg.get(1) and all(len(v) == 1 for v in sg.values()), 'the sign is not decided by its own bit'))
    return out


def one(t):
    kind, var = t[0], t[1]
    mod = mods()[var]
    out = []

    def put(rule, inst, r, fn, extra=''):
        ok, msg = r
        if ok is None:
            out.append((None, f'{var}/{inst}', None, '', msg))
        else:
            out.append((rule, f'{var}/{inst}', ok, loc(mod, fn), f'{fn}: {msg}'))
    if kind == 'int':
        _, _, pre, sz, rs, offs = t
        for n0 in offs:
            r = t_int(mod, pre, sz, rs, n0)
            put('refresh' if n0 == NB else 'draw', f'{pre}rand/{n0}', r, pre + 'rand')
        for n0, s, n in FILLS:
            put('fill', f'{pre}rand_fill/{n0}/{s}/{n}', t_fill(mod, pre + 'rand_fill', sz, n0, s, n, ck_int(sz, rs)), pre + 'rand_fill')
    elif kind == 'real':
        _, _, ty, v, offs = t
        for n0 in offs:
            put('interval', f'{ty}rand{v}/{n0}', t_real(mod, ty, v, n0), f'{ty}rand{v}')
        for n0, s, n in FILLS:
            put('fill', f'{ty}rand{v}_fill/{n0}/{s}/{n}', t_fill(mod, f'{ty}rand{v}_fill', 4 if ty == 'f' else 8, n0, s, n, ck_real(ty, v)), f'{ty}rand{v}_fill')
    elif kind == 'exp':
        _, _, ty, offs = t
        for n0 in offs:
            put('interval', f'{ty}rande/{n0}', t_exp(mod, ty, n0), f'{ty}rande')
        for n0, s, n in FILLS:
            put('fill', f'{ty}rande_fill/{n0}/{s}/{n}', t_fill(mod, f'{ty}rande_fill', 4 if ty == 'f' else 8, n0, s, n, ck_exp(ty)), f'{ty}rande_fill')
    elif kind == 'seed':
        put('seed', 'seed_rng', t_seed(mod), 'seed_rng')
    elif kind == 'pool':
        for W, R in itertools.product(t[2], t[3]):
            put('pool', f'seed_rng_pool/{W}/{R}', t_pool(mod, W, R), 'seed_rng_pool')
            put('pool', f'new_rng_pool/{W}/{R}', t_newpool(mod, W, R), 'new_rng_pool')
    elif kind == 'perm':
        put('perm', f'randperm/{t[2]}', t_randperm(mod, t[2]), 'randperm')
    elif kind == 'shuf':
        put('perm', 'shuffle/%d/%d/%d' % t[2:], t_shuffle(mod, *t[2:]), 'shuffle')
    elif kind == 'table':
        for l, ok, msg in t_tables(mod, t[2]):
            out.append(('normal', f'{t[2]}randn_zig/{l}', ok, f'src/util/rng/{t[2]}randn_table.cc', msg))
    elif kind == 'normal':
        try:
            for l, ok, msg in t_normal(mod, t[2], t[3]):
                out.append(('normal', f'{var}/{t[2]}randn/{l}', ok, loc(mod, f'{t[2]}randn'), f'{t[2]}randn: {msg}'))
        except Undecided as e:
            out.append((None, f'{var}/{t[2]}randn', None, '', str(e)))
        for n0, s, n in FILLS[1:3] if 0 in t[3] else ():
            put('fill', f'{t[2]}randn_fill/{n0}/{s}/{n}', t_nfill(mod, t[2], s, n), f'{t[2]}randn_fill')
    return out


@guard
def t_nfill(mod, ty, stride, n):
    """the fill stores the generator's successive values"""
    m = Interp(mod)
    k = [0]
    m.stub[f'{ty}randn'] = lambda m, V: (k.__setitem__(0, k[0] + 1), Lin(Fraction(0), {('draw', k[0]): Fraction(1)}, None))[1]
    m.touched.clear()
    sz = 4 if ty == 'f' else 8
    X = ('p', 'x', 0)
    if m.call(f'{ty}randn_fill', [RNG, X, stride, n]) != X:
        return False, 'does not return the array'
    own = set()
    for i in range(n):
        own.update(('x', i * stride * sz + j) for j in range(sz))
        e = m.mem.get(('x', i * stride * sz))
        if not e or not isinstance(e, tuple) or dict(e[1].d) != {('draw', i + 1): 1} or e[1].c != 0:
            return False, f'element {i} is not the next deviate'
    if [x for x in m.touched if x not in own and x[0] == 'x'] or k[0] != n:
        return False, 'writes outside the elements or draws more deviates than it stores'
    return True, ''


FILLS = [(0, 1, 0), (3, 1, 5), (8, 3, 4), (NB - 12, 2, 5), (NB, 1, 3)]


def check(ctx):
    T = []
    deep = ctx.thorough
    edge = list(range(0, 17)) + [700, 701, 702, 703] + list(range(NB - 17, NB + 1))
    offs = list(range(NB + 1)) if deep else edge
    ro = edge if deep else [0, 5, 700, NB - 9, NB - 4, NB]
    for var in ('sse2', 'portable'):
        for pre, sz, rs in INTS:
            T.append(('int', var, pre, sz, rs, tuple(offs)))
        for ty in 'fd':
            for v in ('', '_c0', '_c1', '_c'):
                T.append(('real', var, ty, v, tuple(ro)))
            T.append(('exp', var, ty, tuple(ro)))
        T.append(('seed', var))
    var = 'sse2'
    for ty in 'df':
        N = 64 if ty == 'f' else 256
        for k in range(0, N, 32):
            T.insert(0, ('normal', var, ty, tuple(range(k, k + 32))))
        T.append(('table', var, ty))
    T.append(('pool', var, (1, 2, 3, 5), (1, 2, 3, 4)))
    for n in range(0, 7 if deep else 6):
        T.append(('perm', var, n))
    for sz, stride in ((1, 1), (1, 3), (2, 2), (2, 6), (4, 4), (4, 8), (8, 8), (8, 16), (3, 3), (3, 5), (2, 3), (4, 6), (8, 12), (12, 12)):
        for n in (0, 1, 2, 3, 4) + ((5,) if deep else ()):
            T.append(('shuf', var, sz, stride, n))
    mods()
    for var, m in MODS.items():
        ctx.saw(var)
    run_tasks(ctx, T, one)
    for r, n in (('refresh', 32), ('draw', 300), ('fill', 100), ('interval', 60), ('seed', 2), ('pool', 20), ('perm', 40), ('normal', 600)):
        ctx.floor(r, n)
