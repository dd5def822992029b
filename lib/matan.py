"""Materials and field array: constructors evaluated as ordered value graphs; exp and sinh are modelled as
homomorphisms on the rational arguments, so every algebraic form of the coefficients is accepted."""
import ckan, stepan, vg, proj
from fractions import Fraction as Q
from vg import P, Graph
from kern import sgn
from absev import Aborted

AX = 'xyz'
W1, W2 = 'src/field_advance/standard/sfa.cc', 'src/material/material.cc'
HALF = pow(2, P - 2, P)
TR = ('exp', 'expf', 'expm1', 'expm1f', 'sinh', 'sinhf', 'cosh', 'coshf')


class MatScene(ckan.Scene):
    """grid and boot objects only; materials and field array are made by the check"""

    def __init__(self, mod, cfg, dims):
        ckan.Scene.__init__(self, Graph(), mod, cfg, dict(dims=dims, nsp=0, nmat=0, npipe=1, coll=False, emit=False, bufs=False, fields=False, bcs=False))
        self.base = self.m.stub
        self.ab.stub = self.stub
        self.E = self.m.rnd.h(870)
        self.m.ufun = lambda nm, a, pit: self.trans(nm, a[0], pit) if nm in TR else None
        self.D = 1
        st = self.mod.structs['grid']
        self.dt, self.eps0 = Q(1, 5), Q(7, 3)
        for n, v in (('dt', self.dt), ('eps0', self.eps0), ('cvac', Q(3, 2)), ('rdx', Q(2)), ('rdy', Q(3)), ('rdz', Q(5, 2))):
            self.m.setf(self.grid + st.off(n), v)
        self.nv = sgn(self.L(self.grid, 'grid', 'nv'))
        self.ml = (self.vp + mod.structs['vpic_simulation'].off('material_list')) % P

    def exp(self, v, pit):
        """exp of a field element whose rational value is a multiple of 1/D"""
        q = self.m.approx.get(v)
        k = v * self.D % P
        if k > P // 2:
            k -= P
        if abs(k) > 1 << 40 or q is None:
            r = self.m.rnd.h(871, v)
            self.m.approx.setdefault(r, 1.0)
            return r
        import math
        x = k / self.D
        if x < -745:
            return 0
        if x > 709:
            r = self.m.rnd.h(872, v)
            self.m.approx[r] = float('inf')
            return r
        r = pow(self.E, k % (P - 1), P)
        self.m.approx[r] = math.exp(x)
        return r

    def trans(self, nm, x, pit):
        m = self.m
        if x not in m.approx:
            q = pit.apx(x)
            m.approx[x] = q if q is not None else float(sgn(x * self.D % P)) / self.D
        a = self.exp(x, pit)
        if nm.startswith('expm1'):
            r, f = (a - 1) % P, m.approx.get(a, 1.0) - 1
        elif nm.startswith('exp'):
            return a
        else:
            m.approx.setdefault(-x % P, -m.approx.get(x, 0.0))
            b = self.exp(-x % P, pit)
            s = -1 if nm.startswith('sinh') else 1
            r = (a + s * b) * HALF % P
            f = (m.approx.get(a, 1.0) + s * m.approx.get(b, 1.0)) / 2
        m.approx.setdefault(r, f)
        return r

    def stub(self, ab, pit, callee, args, e):
        nm = callee if isinstance(callee, str) else ''
        if nm in TR:
            return self.trans(nm, args[0] or 0, pit)
        return self.base(ab, pit, callee, args, e)

    def mat(self, name, v):
        return self.call('material', self.m.newstr(name), *[self.m.real(x) for x in v])


COMP = [a + b for a in ('eps', 'mu', 'sigma', 'zeta') for b in AX]


def material(mod, cfg, R):
    tag = f'{cfg}/'
    S = MatScene(mod, cfg, (2, 2, 2))
    m, st = S.m, mod.structs['material']
    vals = [Q(k + 2, k + 3) for k in range(12)]
    ms = []
    for j in range(3):
        v = [x + j for x in vals]
        a = S.mat(f'mat{j}', v)
        msg = ''
        for k, x in zip(COMP, v):
            if m.load((a + st.off(k)) % P) != m.real(x):
                msg = msg or f'material() stores a wrong {k}'
        if m.cstr(m.load((a + st.off('name')) % P)) != f'mat{j}':
            msg = msg or 'material() stores a wrong name'
        R('material', tag + f'fields of material {j}', not msg, W2, msg)
        r = S.call('append_material', a, S.ml)
        ms.append(a)
        ok = r == a and m.load((a + st.off('id')) % P) == j
        R('material', tag + f'number of material {j}', ok, W2, '' if ok else f'append_material gives material number {sgn(m.load((a + st.off("id")) % P))} to the material at position {j}')
    l, c = [], m.load(S.ml)
    while c and len(l) < 9:
        l.append(c)
        c = m.load((c + st.off('next')) % P)
    ok = sorted(l) == sorted(ms)
    R('material', tag + 'list', ok, W2, '' if ok else 'the list does not hold the appended materials')
    head = m.load(S.ml)
    for j, a in enumerate(ms):
        ok = S.call('find_material_name', m.newstr(f'mat{j}'), head) == a
        R('material', tag + f'by name {j}', ok, W2, '' if ok else f'find_material_name does not find the material named mat{j}')
        ok = S.call('find_material_id', j, head) == a
        R('material', tag + f'by number {j}', ok, W2, '' if ok else f'find_material_id does not find material {j}')
        ok = S.call('get_material_id', a) == j
        R('material', tag + f'number of {j}', ok, W2, '' if ok else f'get_material_id of material {j}')
    ok = S.call('find_material_name', m.newstr('none'), head) == 0
    R('material', tag + 'no name', ok, W2, '' if ok else 'find_material_name finds a material that does not exist')
    ok = sgn(S.call('num_material', head)) == 3
    R('material', tag + 'count', ok, W2, '' if ok else 'num_material does not count the materials')
    for what, f in (('a second material with the same name', lambda: S.call('append_material', S.mat('mat1', vals), S.ml)),
                    ('a material that is in the list already', lambda: S.call('append_material', ms[0], S.ml)),
                    ('a nameless material', lambda: S.mat('', vals))):
        try:
            f()
            R('material', tag + what, False, W2, f'{what} is accepted')
        except Aborted:
            R('material', tag + what, True, W2, '')


# (sigma x y z) per material; 0 no conductor, -1 means perfect conductor, -2 almost perfect
SETS = [
    [(0, 0, 0)],
    [(Q(1, 2), 0, 0)],
    [(0, 0, 0), (Q(1, 2), 0, Q(3, 4))],
    [(0, Q(2, 3), 0), (0, 0, 0), (Q(1, 3), Q(1, 2), Q(5, 4))],
    [(-1, 0, Q(1, 2)), (0, -1, 0), (Q(1, 2), 0, -1)],
    [(0, 0, Q(1, 7)), (-1, -1, -1)],
    [(-2, 0, 0), (0, -2, -2), (-2, -2, Q(1, 9))],
    [(0, 0, 0)] * 3 + [(0, Q(1, 3), 0), (0, 0, 0), (Q(1, 5), 0, -1), (0, 0, 0)],
]
VAC = ('advance_e', 'energy_f', 'compute_rhob', 'compute_curl_b', 'compute_div_e_err', 'clean_div_e')


def fields(mod, cfg, R, dims, sigs):
    tag = f'{cfg}/{"x".join(map(str, dims))}/{len(sigs)} materials {"; ".join(",".join(str(x) for x in s) for s in sigs)}'
    S = MatScene(mod, cfg, dims)
    m, st = S.m, mod.structs
    mats, props = [], []
    dens = 1
    for j, s in enumerate(sigs):
        eps = [Q(k + 2 + j, 3) for k in range(3)]
        mu = [Q(k + 5, 2 + j) for k in range(3)]
        sg = [Q(10 ** 6) if x == -1 else 80 * eps[k] * S.eps0 / S.dt if x == -2 else Q(x) for k, x in enumerate(s)]
        a = S.mat(f'mat{j}', eps + mu + sg + [Q(0)] * 3)
        S.call('append_material', a, S.ml)
        al = [sg[k] * S.dt / (eps[k] * S.eps0) for k in range(3)]
        for x in al:
            dens = dens * (x / 2).denominator // __import__('math').gcd(dens, (x / 2).denominator)
        props.append((eps, mu, sg, al))
    S.D = dens
    damp = Q(1, 9)
    try:
        fa = S.call('new_standard_field_array', S.grid, m.load(S.ml), m.real(damp))
    except Aborted:
        R('coefficient', tag, False, W1, 'new_standard_field_array stops with an error')
        return
    L = S.L
    p = L(fa, 'field_array', 'params')
    mc = L(p, 'sfa_params', 'mc')
    mcs = st['material_coefficient']
    n = sgn(L(p, 'sfa_params', 'n_mc'))
    ok = n == len(sigs) and L(p, 'sfa_params', 'damp') == m.real(damp) and L(fa, 'field_array', 'g') == S.grid
    R('coefficient', tag + '/count', ok, W1, '' if ok else 'wrong number of coefficients, damping or grid in the field array')
    b = m.block(mc)
    room = b is not None and m.heap.blocks[b][0] - (sgn(mc) - b) >= len(sigs) * mcs.size
    R('coefficient', tag + '/room', room, W1, '' if room else 'the coefficient array is smaller than the number of materials')
    for j, (eps, mu, sg, al) in enumerate(props):
        msg = ''

        def at(k):
            return m.load((mc + j * mcs.size + mcs.off(k)) % P)
        for k in range(3):
            x = AX[k]
            if al[k] == 0:
                dec, drv = 1, m.real(1 / eps[k])
            elif al[k] > 800:
                dec, drv = 0, 0
            else:
                dec = pow(S.E, int(-al[k] * S.D) % (P - 1), P)
                drv = (1 - dec) * m.real(1 / (al[k] * eps[k])) % P
            for nm, v in (('decay' + x, dec), ('drive' + x, drv), ('rmu' + x, m.real(1 / mu[k])), ('eps' + x, m.real(eps[k]))):
                if at(nm) != v:
                    msg = msg or f'coefficient {nm} of material {j} (eps {tuple(map(str, eps))}, sigma {tuple(map(str, sg))}) is not the one of the material'
        nc = 1 if not any(al) else 0
        if at('nonconductive') != nc:
            msg = msg or f'material {j} with conductivity {tuple(map(str, sg))} is marked {"conducting" if nc else "not conducting"}'
        R('coefficient', tag + f'/material {j}', not msg, W1, msg)
    f = L(fa, 'field_array', 'f')
    fs = st['field']
    bad = [(v, mm[0]) for v in range(S.nv) for mm in fs.members if '[' not in str(mm[2]) and m.mem.get((f + v * fs.size + (mm[1] & ~3)) % P) != 0]
    bad = [x for x in bad if not x[1].startswith('_')]
    R('clean', tag + '/new', not bad, W1, f'{bad[0][1]} of voxel {bad[0][0]} of a new field array is not zero' if bad else '')
    ks = st['field_advance_kernels']
    kb = (fa + st['field_array'].off('kernel')) % P
    for mm in ks.members:
        v = m.load((kb + mm[1]) % P)
        fn = stepan.short(m.fns.get(v, '?'))
        want = {'delete_standard_field_array'} if mm[0].startswith('delete') else {mm[0]}
        if len(sigs) == 1 and mm[0] in VAC:
            want.add('vacuum_' + mm[0])
        ok = fn in want
        R('kernel', tag + '/' + mm[0], ok, W1, '' if ok else f'{mm[0]} of a field array with {len(sigs)} materials is {fn}')
    # clearing
    for fn, ks in (('clear_jf', ('jfx', 'jfy', 'jfz')), ('clear_rhof', ('rhof',))):
        S.fill(f, S.nv * fs.size // 4, True)
        old = dict(m.mem)
        S.call(fn, fa)
        msg = ''
        for v in range(S.nv):
            for mm in fs.members:
                a = (f + v * fs.size + mm[1]) % P
                if mm[0] in ks:
                    if m.load(a) != 0:
                        msg = msg or f'{fn} leaves {mm[0]} of voxel {v} of {S.nv}'
                elif a in old and mm[1] % 4 == 0 and m.load(a) != old[a]:
                    msg = msg or f'{fn} changes {mm[0]} of voxel {v}'
        R('clean', tag + '/' + fn, not msg, W1, msg)
    # bad arguments
    if len(sigs) == 1:
        for what, g, ml, d in (('no grid', 0, m.load(S.ml), Q(1, 9)), ('no material', S.grid, 0, Q(1, 9)), ('negative damping', S.grid, m.load(S.ml), Q(-1, 9))):
            try:
                S.call('new_standard_field_array', g, ml, m.real(d))
                R('refuse', tag + '/' + what, False, W1, f'a field array with {what} is accepted')
            except Aborted:
                R('refuse', tag + '/' + what, True, W1, '')
