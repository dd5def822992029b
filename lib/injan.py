"""Particle injection: the injection calls of a deck (witness deck, lib/wit/deck.cxx) evaluated as ordered
value graphs on a simulation built by the repository's constructors.  move_p and accumulate_rhob are events."""
import regan, stepan, vg
from fractions import Fraction as Q
from vg import P, Graph
from kern import sgn
from absev import Aborted

AX = 'xyz'
WHERE = 'src/vpic/misc.cc'


class InjScene(regan.RegScene):
    def __init__(self, mod, cfg, dims, moved=0):
        regan.RegScene.__init__(self, Graph(), mod, cfg, dict(dims=dims, nsp=1, nmat=2, npipe=1, coll=False, emit=False, bufs=False, np=2, nm=1))
        self.moved = moved
        self.events = []
        m, st = self.m, mod.structs
        self.org, self.sp = {}, self.sps[0]
        self.dims = dims
        for a, k in enumerate(AX):
            d = Q(1, 2 + a)
            x0 = Q(-3 + a, 4)
            self.org[a] = (x0, d)
            for n, v in ((k + '0', x0), (k + '1', x0 + d * dims[a]), ('d' + k, d), ('rd' + k, 1 / d), ):
                m.setf(self.grid + st['grid'].off(n), v)
        for n, v in (('cvac', Q(3, 2)), ('dt', Q(1, 5)), ('eps0', Q(7, 3))):
            m.setf(self.grid + st['grid'].off(n), v)

    def stub(self, ab, pit, callee, args, e):
        n = stepan.short(callee) if callee else ''
        if n in ('move_p', 'accumulate_rhob'):
            self.events.append((n, tuple(args), self.snap()))
            return self.moved if n == 'move_p' else 0
        return regan.RegScene.stub(self, ab, pit, callee, args, e)

    def snap(self):
        m, st = self.m, self.mod.structs
        s = {}
        for arr, el in (('p', 'particle'), ('pm', 'particle_mover')):
            b = self.L(self.sp, 'species', arr)
            n = 8 if arr == 'p' else 5
            for j in range(n):
                for mm in st[el].members:
                    s[arr, j, mm[0]] = m.load((b + j * st[el].size + mm[1]) % P)
        for k in ('np', 'nm', 'max_np', 'max_nm', 'p', 'pm'):
            s[k] = m.load((self.sp + st['species'].off(k)) % P)
        return s

    def put(self, k, v):
        a = (self.sp + self.mod.structs['species'].off(k)) % P
        self.m.mem[a], self.m.fty[a] = v % P, False

    def bc(self, a, side, v):
        d = [0, 0, 0]
        d[a] = 1 if side else -1
        o = self.mod.structs['grid'].off('bc') + 4 * (13 + d[0] + 3 * d[1] + 9 * d[2])
        self.m.mem[(self.grid + o) % P] = v % P
        self.m.fty[(self.grid + o) % P] = False


def pick(dims, org):
    """per axis: named positions (fraction of cells from the lower end)"""
    r = []
    for a in range(3):
        n = dims[a]
        c = [('below', Q(-1, 7)), ('low end', Q(0)), ('first cell', Q(1, 3)), ('far wall', Q(n)), ('above', n + Q(1, 9)), ('last cell', n - Q(1, 5))]
        if n > 1:
            c += [('cell plane', Q(1)), ('plane before the last cell', Q(n - 1)), ('second cell', Q(8, 5))]
        r.append(c)
    return r


def points(dims, org, thorough):
    c = pick(dims, org)
    base = [('inside', Q(2, 3)), ('inside', dims[1] - Q(3, 4)), ('inside', Q(1, 4))]
    out = []
    for a in range(3):
        for n, q in c[a]:
            t = list(base)
            t[a] = (f'{n} of {AX[a]}', q)
            out.append(t)
    out.append([('corner', Q(d)) for d in dims])
    out.append([('low corner', Q(0)) for d in dims])
    out.append([('edge', Q(dims[0])), ('edge', Q(0)), ('edge', Q(dims[2]))])
    return out


def inject(mod, cfg, R, dims, walls, thorough=False):
    """R(rule, instance, ok, where, msg)"""
    org = InjScene(mod, cfg, dims).org
    st = mod.structs
    pts = points(dims, org, thorough)
    for k, pt in enumerate(pts):
        for age, upd, moved, full, fullm, short in variants(k, thorough):
            S = InjScene(mod, cfg, dims, moved)
            m = S.m
            for a in range(3):
                S.bc(a, 1, walls[a])
            s0 = S.snap()
            np0, nm0 = sgn(s0['np']), sgn(s0['nm'])
            if full:
                S.put('max_np', np0 - int(full) if full < 0 else np0)
            if fullm:
                S.put('max_nm', nm0 - int(fullm) if fullm < 0 else nm0)
            pos = [S.org[a][0] + S.org[a][1] * pt[a][1] for a in range(3)]
            u = [Q(2, 7), Q(-3, 5), Q(5, 11)]
            w = Q(9, 13)
            args = pos + u + [w] + ([] if short else [Q(age), None])
            for j, q in enumerate(args):
                if q is not None:
                    S.setg('wit_a', m.real(q), 8 * j, True)
            S.setg('wit_i', upd)
            S.setg('wit_sp', S.sp)
            if short:
                age, upd = 0, 1
            s0 = S.snap()
            tag = f'{cfg}/{"x".join(map(str, dims))}/{"".join("w" if x < 0 else "n" for x in walls)}/{",".join(sorted({n for n, q in pt}))}/age {age} rhob {upd} {"short " if short else ""}{"full" if full > 0 else "almost full" if full else ""}{"no mover" if fullm > 0 else "one mover" if fullm else ""}{moved}'
            mine = all(0 <= q < dims[a] or (q == dims[a] and walls[a] < 0) for a, (n, q) in enumerate(pt))
            R('evaluated', tag, True, WHERE, '')
            try:
                S.run('user_particle_injection', 4 if short else 1)
                stop = False
            except Aborted:
                stop = True
            s1 = S.snap()
            at = f'a particle at {tuple(str(q) for n, q in pt)} cells of a {dims} domain (upper ends: {["wall" if x < 0 else "shared" for x in walls]})'
            if not mine:
                ok = s1 == s0 and not S.events and not stop
                R('accept', tag, ok, WHERE, f'inject_particle: {at} belongs to another domain but is injected here' if not ok else '')
                continue
            if full > 0:
                ok = stop and s1 == s0 and not S.events
                R('room', tag, ok, WHERE, 'inject_particle writes a particle although the particle array is full' if not ok else '')
                continue
            if stop:
                R('accept', tag, False, WHERE, f'inject_particle: {at} is refused with an error')
                continue
            ok = s1['np'] == np0 + 1
            R('accept', tag, ok, WHERE, f'inject_particle: {at} belongs to this domain but {sgn(s1["np"]) - np0} particles are injected' if not ok else '')
            if not ok:
                continue
            msg = ''
            v = sgn(s1['p', np0, 'i'])
            d = st['particle']
            ijk = (v % (dims[0] + 2), v // (dims[0] + 2) % (dims[1] + 2), v // ((dims[0] + 2) * (dims[1] + 2)))
            for a in range(3):
                q = pt[a][1]
                i = min(int(q), dims[a] - 1)
                f = 2 * (q - i) - 1
                if ijk[a] != i + 1:
                    msg = msg or f'inject_particle: {at} is put in voxel {ijk} instead of one with {AX[a]} index {i + 1}'
                elif s1['p', np0, 'd' + AX[a]] != m.real(f):
                    msg = msg or f'inject_particle: {at} gets a wrong offset in {AX[a]}'
            R('place', tag, not msg, WHERE, msg)
            msg = ''
            for n, q in (('ux', u[0]), ('uy', u[1]), ('uz', u[2]), ('w', w)):
                if s1['p', np0, n] != m.real(q):
                    msg = msg or f'inject_particle stores a wrong {n}'
            for key in s0:
                if isinstance(key, tuple) and key[0] == 'p' and key[1] != np0 and s0[key] != s1[key]:
                    msg = msg or f'inject_particle changes {key[2]} of particle {key[1]} of {np0}'
            R('store', tag, not msg, WHERE, msg)
            charge(S, R, tag, upd, np0, s1, 'inject_particle', WHERE)
            ev = [e for e in S.events if e[0] == 'move_p']
            msg = ''
            if age == 0 or fullm > 0:
                if ev or s1['nm'] != nm0:
                    msg = 'inject_particle moves a particle that has no age' if age == 0 else 'inject_particle uses a mover although the mover array is full'
                for key in s0:
                    if isinstance(key, tuple) and key[0] == 'pm' and s0[key] != s1[key]:
                        msg = msg or f'inject_particle writes mover {key[1]} although it has {nm0 if not fullm > 0 else "only " + str(nm0)} movers'
            else:
                g2 = m.pit().sqrt(m.real(1 + sum(x * x for x in u)))
                disp = {}
                for a in range(3):
                    disp[AX[a]] = m.real(u[a] * Q(age) * Q(3, 2) * Q(1, 5) / S.org[a][1]) * pow(g2, P - 2, P) % P
                msg = moved_ok(S, ev, np0, nm0, s1, disp, moved, 'inject_particle')
            R('age', tag, not msg, WHERE, msg)


def variants(k, thorough):
    v = [(0, 0, 0, False, False, False), (Q(1, 3), 1, 1, False, False, False)]
    if k % 4 == 0 or thorough:
        v += [(0, 1, 0, False, False, False), (1, 0, 0, False, False, False), (0, 0, 0, True, False, False), (Q(1, 3), 1, 0, False, True, False), (Q(1, 3), 1, 0, True, True, False), (Q(1, 3), 1, 1, -1, -1, False), (0, 0, 0, False, False, True)]
    return v


def charge(S, R, tag, upd, np0, s1, fn, where):
    ev = [e for e in S.events if e[0] == 'accumulate_rhob']
    m, st = S.m, S.mod.structs
    msg = ''
    if len(ev) != (1 if upd else 0):
        msg = f'{fn} deposits bound charge {len(ev)} times'
    elif upd:
        n, a, sn = ev[0]
        q = S.L(S.sp, 'species', 'q')
        pa = (s1['p'] + np0 * st['particle'].size) % P
        if a[0] != S.L(S.fa, 'field_array', 'f') or a[1] != pa or a[2] != S.grid:
            msg = f'{fn} deposits the bound charge of another particle or in another field'
        elif a[3] != -q % P:
            msg = f'{fn} deposits a bound charge that does not cancel the charge of the particle'
        else:
            mv = [i for i, e in enumerate(S.events) if e[0] == 'move_p']
            if mv and mv[0] < S.events.index(ev[0]):
                msg = f'{fn} deposits the bound charge after moving the particle'
            for mm in st['particle'].members:
                if sn['p', np0, mm[0]] != s1['p', np0, mm[0]]:
                    msg = msg or f'{fn} deposits the bound charge before {mm[0]} of the particle is set'
    R('charge', tag, not msg, where, msg)


def moved_ok(S, ev, np0, nm0, s1, disp, moved, fn):
    m, st = S.m, S.mod.structs
    if len(ev) != 1:
        return f'{fn} moves the particle {len(ev)} times'
    n, a, sn = ev[0]
    pm = (s1['pm'] + nm0 * st['particle_mover'].size) % P
    if a[0] != s1['p'] or a[1] != pm or a[2] != S.L(S.aa, 'accumulator_array', 'a') or a[3] != S.grid or a[4] != S.L(S.sp, 'species', 'q'):
        return f'{fn} calls move_p with a wrong particle array, mover, accumulator, grid or charge'
    for k, v in disp.items():
        if sn['pm', nm0, 'disp' + k] != v:
            return f'{fn}: wrong displacement along {k}'
    if sn['pm', nm0, 'i'] != np0:
        return f'{fn}: the mover does not refer to the injected particle'
    for mm in st['particle'].members:
        if sn['p', np0, mm[0]] != s1['p', np0, mm[0]]:
            return f'{fn}: {mm[0]} is set after the move'
    if s1['nm'] != nm0 + moved:
        return f'{fn}: move_p left {moved} unfinished movers, the species counts {sgn(s1["nm"]) - nm0}'
    return ''


def raw(mod, cfg, R, dims):
    st = mod.structs
    where = 'src/vpic/vpic.h'
    for case, upd, moved in ((2, 0, 0), (3, 0, 0), (3, 1, 0), (3, 0, 1), (3, 1, 1)):
        S = InjScene(mod, cfg, dims, moved)
        m = S.m
        vals = [Q(1, 3), Q(-1, 5), Q(3, 7), Q(2, 7), Q(-3, 5), Q(5, 11), Q(9, 13), Q(1, 17), Q(-2, 19), Q(4, 23)]
        for j, q in enumerate(vals):
            S.setg('wit_a', m.real(q), 8 * j, True)
        S.setg('wit_i', 37)
        S.setg('wit_i', upd, 8)
        S.setg('wit_sp', S.sp)
        s0 = S.snap()
        np0, nm0 = sgn(s0['np']), sgn(s0['nm'])
        tag = f'{cfg}/raw {case} rhob {upd} {moved}'
        try:
            S.run('user_particle_injection', case)
        except Aborted:
            R('store', tag, False, where, 'inject_particle_raw stops with an error')
            continue
        s1 = S.snap()
        msg = ''
        if s1['np'] != np0 + 1:
            msg = 'inject_particle_raw does not inject one particle'
        for n, q in zip(('dx', 'dy', 'dz', 'ux', 'uy', 'uz', 'w'), vals):
            if s1['p', np0, n] != m.real(q):
                msg = msg or f'inject_particle_raw stores a wrong {n}'
        if s1['p', np0, 'i'] != 37:
            msg = msg or 'inject_particle_raw stores a wrong voxel'
        for key in s0:
            if isinstance(key, tuple) and key[0] == 'p' and key[1] != np0 and s0[key] != s1[key]:
                msg = msg or f'inject_particle_raw changes another particle'
        R('store', tag, not msg, where, msg)
        if case == 2:
            ok = not S.events and s1['nm'] == nm0
            R('age', tag, ok, where, '' if ok else 'inject_particle_raw without displacement moves or deposits')
            continue
        charge(S, R, tag, upd, np0, s1, 'inject_particle_raw', where)
        ev = [e for e in S.events if e[0] == 'move_p']
        msg = moved_ok(S, ev, np0, nm0, s1, {AX[j]: m.real(vals[7 + j]) for j in range(3)}, moved, 'inject_particle_raw')
        R('age', tag, not msg, where, msg)
