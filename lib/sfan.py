"""Interpolator load, accumulator clear / reduce / unload, hydro clear / reduce, charge
accumulation, field energies and divergence norms: whole sweeps compared with declarative
specifications over families of grid shapes, pipeline counts and schedules."""
import random
from fractions import Fraction as Q
import vg, kern, proj
from vg import P, Graph
from kern import sgn
from bndan import inv, AX, CYC
from whole import WM, Whole, compare
from absev import Aborted
from proj import Broken

QUART, HALF = inv(4), inv(2)


def interp_spec(m):
    """interpolation coefficients of every cell: mean / half-differences of the edge and face values"""
    w = {}
    nx, ny, nz = m.dims
    f = m.F.get
    for z in range(1, nz + 1):
        for y in range(1, ny + 1):
            for x in range(1, nx + 1):
                c = (x, y, z)
                for a in range(3):
                    X, Y, Z = CYC[a]
                    def at(du, dv):
                        p = list(c)
                        p[Y] += du
                        p[Z] += dv
                        return f('e' + AX[X], *p)
                    v = {(i, j): at(i, j) for i in (0, 1) for j in (0, 1)}
                    e = 'e' + AX[X]
                    for nm, su, sv in ((e, 0, 0), (f'd{e}d{AX[Y]}', 1, 0), (f'd{e}d{AX[Z]}', 0, 1), (f'd2{e}d{AX[Y]}d{AX[Z]}', 1, 1)):
                        w[m.I.addr(nm, *c)] = QUART * sum(v[i, j] * ((1 if i else -1) if su else 1) * ((1 if j else -1) if sv else 1) for i, j in v) % P
                    p = list(c)
                    p[X] += 1
                    b = 'cb' + AX[X]
                    lo, hi = f(b, *c), f(b, *p)
                    w[m.I.addr(b, *c)] = HALF * (lo + hi) % P
                    w[m.I.addr(f'd{b}d{AX[X]}', *c)] = HALF * (hi - lo) % P
    return w


QUAD = [(0, 0), (1, 0), (0, 1), (1, 1)]


def unload_spec(m):
    w = {}
    nx, ny, nz = m.dims
    A = m.A[0]
    for z in range(1, nz + 2):
        for y in range(1, ny + 2):
            for x in range(1, nx + 2):
                c = (x, y, z)
                for a in range(3):
                    X, Y, Z = CYC[a]
                    k = QUART * m.G('rd' + AX[Y]) % P * m.G('rd' + AX[Z]) % P * inv(m.G('dt')) % P
                    s = 0
                    for q, (du, dv) in enumerate(QUAD):
                        p = list(c)
                        p[Y] -= du
                        p[Z] -= dv
                        s += A.get('j' + AX[X], *p, q)
                    w[m.F.addr('jf' + AX[X], *c)] = (m.F.get('jf' + AX[X], *c) + k * s) % P
    return w


def cells(m, ghost=False):
    nx, ny, nz = m.dims
    lo, k = (0, 2) if ghost else (1, 1)
    return [(x, y, z) for z in range(lo, nz + k) for y in range(lo, ny + k) for x in range(lo, nx + k)]


def acomps():
    return [('j' + a, k) for a in AX for k in range(4)]


HC = ['jx', 'jy', 'jz', 'rho', 'px', 'py', 'pz', 'ke', 'txx', 'tyy', 'tzz', 'tyz', 'tzx', 'txy']


def pad(s):
    return s is not None and ('pad' in s.rsplit('.', 1)[-1] or '.+' in s)


def verdict(m, w, want, loose=None):
    """compare; `loose`(addr) -> admissible values of locations outside the specification"""
    x = None
    touched = {}
    for a, v, e in w.ab.log:
        touched[a] = e
    for a in sorted(set(touched) | set(want)):
        have = m.load(a)
        wv = want[a] if a in want else m.mem0(a)
        if have == wv:
            continue
        d = m.where(a)
        if d is None and a not in want or pad(d):
            continue
        if a not in want and loose and have in loose(a, d):
            continue
        d = d or 'result'
        return d + (' is not set' if a not in touched else ' gets the wrong value' if a in want else ' must not change'), touched.get(a)
    return None


def case_interp(m, w, mod):
    want = interp_spec(m)
    w.run(mod.func('load_interpolator_array'), [m.ia, m.fa])
    return verdict(m, w, want)


def case_unload(m, w, mod):
    want = unload_spec(m)
    w.run(mod.func('unload_accumulator_array'), [m.fa, m.aa])
    return verdict(m, w, want)


def case_clear_a(m, w, mod):
    want = {A.addr(c, *p, k): 0 for A in m.A for p in cells(m) for c, k in acomps()}
    w.run(mod.func('clear_accumulator_array'), [m.aa])
    return verdict(m, w, want, lambda a, d: {0} if d.startswith('a') else ())


def case_clear_h(m, w, mod):
    want = {H.addr(c, *p): 0 for H in m.Hs for p in cells(m, True) for c in HC}
    w.run(mod.func('clear_hydro_array'), [m.ha])
    return verdict(m, w, want, lambda a, d: {0} if d.startswith('h') else ())


def case_reduce_a(m, w, mod):
    tot = lambda A0, a: sum(m.mem0(a - m.A[0].base + A.base) for A in m.A) % P
    want = {m.A[0].addr(c, *p, k): tot(m.A[0], m.A[0].addr(c, *p, k)) for p in cells(m) for c, k in acomps()}
    w.run(mod.func('reduce_accumulator_array'), [m.aa])
    return verdict(m, w, want, lambda a, d: {tot(m.A[0], a)} if d.startswith('a[block 0]') else ())


def case_reduce_h(m, w, mod):
    want = {m.Hs[0].addr(c, *p): sum(H.get(c, *p) for H in m.Hs) % P for p in cells(m, True) for c in HC}
    w.run(mod.func('reduce_hydro_array'), [m.ha])
    return verdict(m, w, want)


def mat(m, x, y, z, idm, coef):
    """material coefficient at a field location"""
    S = m.S
    mc = m.load(m.load(m.fa + S['field_array'].off('params')) + S['sfa_params'].off('mc'))
    i = m.F.get(idm, x, y, z) if idm else 0
    return m.load(mc + i * S['material_coefficient'].size + S['material_coefficient'].off(coef))


def setmat(m):
    S = m.S
    pp, mc = m.rnd.h(830, 1), m.rnd.h(830, 2)
    m.mem[(m.fa + S['field_array'].off('params')) % P] = pp
    m.mem[(pp + S['sfa_params'].off('mc')) % P] = mc
    rnd = random.Random(m.nv)
    for p in cells(m, True):
        for k in ('ematx', 'ematy', 'ematz', 'fmatx', 'fmaty', 'fmatz', 'nmat', 'cmat'):
            m.mem[m.F.addr(k, *p)] = rnd.randrange(5)
    m.freeze()


def energy(vac):
    def case(m, w, mod):
        setmat(m)
        out = [0] * 6
        for c in cells(m):
            for a in range(3):
                X, Y, Z = CYC[a]
                for i, j in QUAD:
                    p = list(c)
                    p[Y] += i
                    p[Z] += j
                    out[a] += QUART * mat(m, *p, None if vac else 'emat' + AX[X], 'eps' + AX[X]) * m.F.get('e' + AX[X], *p) ** 2
                for i in (0, 1):
                    p = list(c)
                    p[X] += i
                    out[3 + a] += HALF * mat(m, *p, None if vac else 'fmat' + AX[X], 'rmu' + AX[X]) * m.F.get('cb' + AX[X], *p) ** 2
        gl = m.rnd.h(831, 1)
        want = {(gl + 8 * i) % P: HALF * m.G('eps0') % P * m.G('dV') % P * out[i] % P for i in range(6)}
        w.run(mod.func('vacuum_energy_f' if vac else 'energy_f'), [gl, m.fa])
        if getattr(w, 'allsum', 0) != 1:
            return 'the energies are not summed over the domains exactly once', None
        for i in range(6):
            if m.load(gl + 8 * i) != want[(gl + 8 * i) % P]:
                return f'energy component {i} is wrong', None
        return verdict(m, w, want)
    return case


def rms(which):
    def case(m, w, mod):
        nx, ny, nz = m.dims
        if which == 'b':
            s = sum(m.F.get('div_b_err', *c) ** 2 for c in cells(m))
        else:
            s = 0
            for z in range(1, nz + 2):
                for y in range(1, ny + 2):
                    for x in range(1, nx + 2):
                        k = sum((x in (1, nx + 1), y in (1, ny + 1), z in (1, nz + 1)))
                        s += inv(2 ** k) * m.F.get('div_e_err', x, y, z) ** 2
        got = {}

        def allsum(ab, pit, callee, args, e):
            nm = kern.base_of(callee) if isinstance(callee, str) else ''
            if nm.startswith('mp_allsum_d'):
                got['l'] = [m.load(args[0] + 8 * i) for i in range(sgn(args[2]))]
                for i in range(sgn(args[2])):
                    ab.put(pit, args[1] + 8 * i, m.rnd.h(832, i), 'double', e)
                return 0
            return NotImplemented
        w.user = allsum
        r = w.run(mod.func(f'compute_rms_div_{which}_err'), [m.fa])
        if 'l' not in got:
            return 'the norm is not summed over the domains', None
        if got['l'][0] != s * m.G('dV') % P:
            return 'the local sum of squares is wrong', None
        if got['l'][1] != nx * ny * nz * m.G('dV') % P:
            return 'the local volume is wrong', None
        if r != m.G('eps0') * m.rnd.sqrt(m.rnd.h(832, 0) * inv(m.rnd.h(832, 1)) % P) % P:
            return 'the returned norm is not eps0 sqrt(error/volume)', None
        return verdict(m, w, {})
    return case


def weights(m, d, q8):
    return {(i, j, k): q8 * (1 + (2 * i - 1) * d[0]) * (1 + (2 * j - 1) * d[1]) * (1 + (2 * k - 1) * d[2]) % P for i in (0, 1) for j in (0, 1) for k in (0, 1)}


def mkpart(m, npart, seed):
    """species with particles anywhere in the grid (several per cell)"""
    rnd = random.Random(seed)
    S = m.S
    sp, pb = m.rnd.h(833, 1), m.rnd.h(833, 2)
    st, ps = S['species'], S['particle']
    m.mem[(sp + st.off('p')) % P] = pb
    m.mem[(sp + st.off('g')) % P] = m.gp
    m.mem[(sp + st.off('np')) % P] = npart
    cs = [rnd.choice(cells(m)) for n in range(npart)]
    cs[:2] = [(1, 1, 1), m.dims][:npart]
    for n, c in enumerate(cs):
        m.mem[(pb + n * ps.size + ps.off('i')) % P] = m.F.vox(*c)
    m.freeze()
    return sp, pb, cs


def case_rho(m, w, mod):
    sp, pb, cs = mkpart(m, 7, m.nv)
    ps = m.S['particle']
    want = {}
    q8 = m.load(sp + m.S['species'].off('q')) * m.G('r8V') % P
    for n, c in enumerate(cs):
        g = lambda k: m.load(pb + n * ps.size + ps.off(k))
        for (i, j, k), v in weights(m, [g('dx'), g('dy'), g('dz')], q8 * g('w') % P).items():
            a = m.F.addr('rhof', c[0] + i, c[1] + j, c[2] + k)
            want[a] = (want.get(a, m.mem0(a)) + v) % P
    w.run(mod.func('accumulate_rho_p'), [m.fa, sp])
    return verdict(m, w, want)


def case_rhob(m, w, mod):
    sp, pb, cs = mkpart(m, 1, m.nv)
    ps = m.S['particle']
    q = m.rnd.h(834, 1)
    nx, ny, nz = m.dims
    for c in cells(m):
        m.mem[(pb + ps.off('i')) % P] = m.F.vox(*c)
        m.freeze()
        w.ab.log.clear()
        want = {}
        g = lambda k: m.load(pb + ps.off(k))
        for o, v in weights(m, [g('dx'), g('dy'), g('dz')], q * m.G('r8V') % P * g('w') % P).items():
            p = [c[t] + o[t] for t in range(3)]
            f = 1
            for t in range(3):
                f *= 2 if p[t] in (1, m.dims[t] + 1) else 1
            a = m.F.addr('rhob', *p)
            want[a] = (want.get(a, m.mem0(a)) + f * v) % P
        w.run(mod.func('accumulate_rhob'), [m.fb, pb, m.gp, q])
        r = verdict(m, w, want)
        if r:
            return r[0] + f', particle in cell {c}', r[1]
    return None


def seqplan(name, thorough):
    return [(s, 1) for s in SIZES + (((5, 4, 3), (4, 4, 4)) if thorough else ())]


DIAG = {'energy_f': energy(False), 'vacuum_energy_f': energy(True), 'compute_rms_div_e_err': rms('e'), 'compute_rms_div_b_err': rms('b')}
RHO = {'accumulate_rho_p': case_rho, 'accumulate_rhob': case_rhob}
CASES = {'load_interpolator_array': case_interp, 'unload_accumulator_array': case_unload, 'clear_accumulator_array': case_clear_a,
         'clear_hydro_array': case_clear_h, 'reduce_accumulator_array': case_reduce_a, 'reduce_hydro_array': case_reduce_h}

SIZES = ((3, 2, 4), (1, 1, 1), (2, 5, 1), (1, 3, 2), (6, 1, 1), (140, 1, 1), (1, 70, 1), (1, 1, 70))
PIPES = (1, 2, 3, 5, 8, 17)
MANY = (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 17, 18, 19, 20, 27, 28)


def plans(name, thorough):
    if name.startswith('reduce'):
        ps = [((1, 1, 1), n) for n in MANY] + [((3, 2, 4), 3), ((2, 5, 1), 4)]
        return ps + ([((2, 2, 2), n) for n in MANY] if thorough else [])
    if thorough:
        return [(s, n) for s in SIZES + ((5, 4, 3), (4, 4, 4), (9, 2, 3)) for n in PIPES + (4, 7, 13)]
    return [(s, n) for i, s in enumerate(SIZES) for j, n in enumerate(PIPES) if i == 0 or (i + j) % 2 == 0]


ALL = {**CASES, **DIAG, **RHO}


def sweep(mod, cfg, R, names=None, thorough=False):
    for name, fn in ALL.items():
        planner = seqplan if name in RHO else plans
        if names and name not in names:
            continue
        f = mod.func(name)
        if f is None:
            raise Broken(f'{name} not found')
        where = f'{f.file}:{f.line}'
        bad, sched, n = None, None, 0
        g = Graph()
        for j, (dims, npipe) in enumerate(planner(name, thorough)):
            for late in (False, True):
                if late and 'omp' in cfg:
                    continue
                m = WM(g, mod, dims, 101 + j, npipe)
                m.freeze()
                w = Whole(mod, m, late)
                try:
                    r = fn(m, w, mod)
                except Aborted as e:
                    bad = bad or (f'stops with an error message on valid input (grid {dims}, {npipe} pipelines)', where)
                    continue
                n += 1
                for i in w.issues:
                    sched = sched or i
                if r:
                    loc = where
                    e = r[1]
                    ff = mod.func(e.fn) if e is not None and getattr(e, 'fn', None) else None
                    bad = bad or (f'{r[0]} (grid {dims}, {npipe} pipelines, pipelines {"after" if late else "before"} the host part)', loc)
        R('sweep', 'whole-sweep', f'{name}/{cfg}', bad is None, bad[1] if bad else where, bad[0] if bad else '')
        R('sweep', 'waited', f'{name}/{cfg}', sched is None, where, sched or '')
