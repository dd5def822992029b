"""Ordered value graphs: memory effects of a function kept in program order (loads included),
evaluated over an algebraic domain: real values are elements of a prime field (identity of
rational expressions), integers and addresses are exact, the order of real values is decided by
interval-free approximations carried beside the field elements.  Calls of repository functions
are bound to their own ordered graphs, everything else is answered by the caller's stubs."""
import re
import vg, kern
from fractions import Fraction
from vg import P, Mem, Build, Effect, Loop, Pit, Graph
from kern import Model, sgn
from proj import Broken


class OBuild(Build):
    def __init__(self, *a, **k):
        self.fld = {}
        Build.__init__(self, *a, **k)

    def instr(self, i, m, c, effects):
        self._eff, self._c, self._i = effects, c, i
        Build.instr(self, i, m, c, effects)

    def oload(self, a, sz, ty):
        g = self.g
        s = self.fresh()
        n = g.mk('ld', ('O', self.tag, s), (a,))
        self.fld[n] = ty in ('float', 'double')
        self._eff.append(Effect('load', self._c, self._i, addr=a, res=n, sz=sz, ity=ty, order=s))
        return n

    def load(self, m, a, sz, ty):
        n = self.oload(a, sz, ty)
        if ty == 'ptr':
            self.g.ptr(n)
        return n

    def bits(self, v):
        g = self.g
        if not isinstance(v, tuple) and g.nodes[v][0] == 'ld':
            return g.mk('bits', None, (v,)) if self.fld.get(v) else v
        return Build.bits(self, v)

    def unbits(self, v):
        g = self.g
        if not isinstance(v, tuple) and g.nodes[v][0] == 'ld':
            return v if self.fld.get(v) else g.mk('unbits', None, (v,))
        return Build.unbits(self, v)

    def ldnode(self, m, a, isptr=False, ty=None):
        return self.oload(a, 4, 'i32')

    def store(self, m, c, a, v, sz, ity):
        pass

    def loop(self, h, inc, mem, cond):
        g, f = self.g, self.f
        lid = self.loopid[h]
        lp = Loop()
        lp.id, lp.header, lp.ins, lp.k = lid, h, f.blocks[h][-1], g.mk('k', lid)
        phis = [i for i in f.blocks[h] if i['op'] == 'phi']
        init, cur = {}, {}
        for p in phis:
            vs = [(ec, self.opnd(o)) for (pb, ec, em) in inc for (pp, o) in p['o'] if pp == pb]
            iv = init[p['id']] = self.gate(vs, cond)
            if isinstance(iv, tuple):
                cur[p['id']] = tuple(g.mk('mu', (lid, p['id'], j)) for j in range(len(iv)))
            else:
                n = g.mk('mu', (lid, p['id']))
                if p['t'] == 'ptr':
                    g.ptr(n)
                cur[p['id']] = n
        self.val.update(cur)
        effects, exits, conds = self.region(h, Mem(), g.TRUE)
        back = self._back
        for p in phis:
            vs = [(ec, self.opnd(o)) for (fr, to, ec, em) in back for (pp, o) in p['o'] if pp == fr]
            nx = self.gate(vs, g.or_([x[0] for x in vs])) if vs else init[p['id']]
            lp.phis[p['id']] = (cur[p['id']], init[p['id']], nx, p)
        lp.effects, lp.exits, lp.solved, lp.cont, lp.trips, lp.form = effects, exits, {}, None, None, None
        lp.wroots, lp.wkeys = set(), set()
        self.loops[lid] = lp
        # values used after the loop: those of the last iteration
        xs = f.loops[h]
        inside = set(xs)

        def ex(n):
            return g.mk('lx', lid, (n,)) if isinstance(n, int) else tuple(ex(q) for q in n)
        for b in inside:
            for i in f.blocks[b]:
                v = self.val.get(i['id'])
                if v is None:
                    continue
                self.val[i['id']] = self.exitval(v, lid)
        outs = []
        for (fr, to, ec, em) in exits:
            e2 = cond if len(exits) == 1 else g.and_([cond, g.mk('exitvia', (lid, fr, to))])
            outs.append((fr, to, e2, Mem()))
        return lp, outs

    def exitval(self, v, lid):
        """value of a node of the loop body after the loop: frozen in its last iteration"""
        g = self.g
        if isinstance(v, tuple):
            return tuple(self.exitval(x, lid) for x in v)
        op = g.nodes[v][0]
        if op in ('true', 'false', 'f', 'arg', 'alloca', 'global', 'fn', 'undef') or g.const(v) is not None:
            return v
        n = g.mk('lx', (lid, v))
        if v in g.root:
            g.ptr(n)
        return n


class Aborted(Exception):
    pass


class Abs:
    """evaluation of ordered graphs in a model"""
    cache = {}

    def __init__(self, mod, m, stub=None, limit=4096):
        self.mod, self.m, self.stub, self.limit = mod, m, stub, limit
        self.g = m.g
        self.dyn = {}
        self.log = []       # ('st', addr, value, effect)
        self.calls = []
        self.depth = 0
        self.steps = 0
        self.nal = 0
        m.approx = getattr(m, 'approx', None)
        if m.approx is None:
            m.approx = {0: 0.0}
        m.dyn = self.dyn
        if not hasattr(m, 'fty'):
            m.fty = {}
        self.lxneed = {}

    def graph(self, f):
        key = (id(self.g), f.name)
        b = Abs.cache.get(key)
        if b is None:
            b = OBuild(self.g, f)
            b.lxn = {}
            Abs.cache[key] = b
        return b

    def call(self, f, args):
        """value returned by the repository function f for the given argument values"""
        if self.depth > 24:
            raise Broken('call depth')
        b = self.graph(f)
        env = {}
        for i, a in enumerate(args):
            n = self.g.key.get(('arg', (b.tag, i), ()))
            if n is not None and a is not None:
                env[n] = a % P
        self.nal += 1
        pit = self.m.pit(env)
        pit.frame = self.nal
        self.depth += 1
        try:
            self.run(pit, b.effects)
            r = b.retval
            if r is None:
                return None
            if isinstance(r, tuple):
                return tuple(kern.fval(pit, x) for x in r)
            return kern.fval(pit, r)
        finally:
            self.depth -= 1

    # ------------------------------------------------------------------
    def read(self, pit, a, sz, ty):
        v = self.m.load(a)
        fl = self.m.fty.get(a % P)
        if fl is None:
            return v
        want = ty in ('float', 'double')
        if want == fl:
            return v
        if fl:
            return pit._bits(v)
        return pit._unbits(v)

    def write(self, pit, a, n, sz, ity, e):
        if sz == 8 and self.g.nodes[n][0] == 'pair':
            x, y = self.g.nodes[n][2]
            self.put(pit, a, pit.ev(x), ity, e)
            self.put(pit, (a + 4) % P, pit.ev(y), ity, e)
            return
        self.put(pit, a, pit.ev(n), ity, e)

    def put(self, pit, a, v, ity, e):
        a %= P
        fl = ity in ('float', 'double')
        if v and v in pit.binv and not fl:
            v, fl = pit.binv[v], True
        if ity is not None:
            self.m.fty[a] = fl
        self.m.mem[a] = v
        self.log.append((a, v, e))

    def run(self, pit, effects):
        g = self.g
        for e in effects:
            if not pit.ev(e.guard):
                continue
            self.steps += 1
            k = e.kind
            if k == 'load':
                self.dyn[e.res] = pit.v[e.res] = self.read(pit, pit.ev(e.addr), e.sz, e.ity)
            elif k == 'store':
                self.write(pit, pit.ev(e.addr), e.val, e.sz, e.ity, e)
            elif k == 'call':
                self.docall(pit, e)
            elif k == 'loop':
                self.loop(pit, e)
            elif k == 'abort':
                raise Aborted(e)

    def docall(self, pit, e):
        callee = e.callee
        if isinstance(callee, tuple):
            v = pit.ev(callee[1])
            callee = self.fnname(v)
        args = []
        for a in e.args:
            if a is None:
                args.append(None)
            elif isinstance(a, tuple):
                args.append(tuple(kern.fval(pit, x) for x in a))
            else:
                args.append(kern.fval(pit, a))
        r = None
        if callee in ('memcpy', 'memmove'):
            self.copy(pit, args[0], args[1], sgn(args[2]), e)
            r = args[0]
        elif callee == 'memset':
            n = sgn(args[2])
            z = 0 if not args[1] else self.m.rnd.h(8, args[1])
            for o in range(0, n, 4):
                self.put(pit, args[0] + o, z, None, e)
            r = args[0]
        else:
            self.calls.append((callee, args, e))
            r = self.stub(self, pit, callee, args, e) if self.stub else None
            if r is NotImplemented or r is None:
                f = self.mod.func(callee) if isinstance(callee, str) else None
                if r is NotImplemented:
                    r = self.call(f, args) if f is not None else None
        if e.res is not None and isinstance(e.res, int):
            if isinstance(r, tuple):
                for j, x in enumerate(r):
                    n = g.key.get(('xv', j, (e.res,)))
                    if n is not None:
                        self.dyn[n] = pit.v[n] = x % P
            elif r is not None:
                self.dyn[e.res] = pit.v[e.res] = r % P

    def fnname(self, v):
        t = getattr(self, '_fns', None)
        if t is None:
            t = self._fns = {self.m.rnd.h(4, vg.crc(n)): n for n in self.mod._raw}
        return t.get(v, ('ind', v))

    def copy(self, pit, d, s, n, e):
        if not 0 <= n <= 1 << 22:
            raise Broken('block copy of unresolved length')
        m = self.m
        vals = [(o, m.load(s + o), m.fty.get((s + o) % P)) for o in range(0, n, 4) if n <= 1 << 14 or (s + o) % P in m.mem]
        for o, v, t in vals:
            a = (d + o) % P
            m.fty.pop(a, None)
            if t is not None:
                m.fty[a] = t
            m.mem[a] = v
            self.log.append((a, v, e))

    def lxs(self, lid):
        """nodes whose last value in the loop is used later"""
        t = self.lxneed.get(lid)
        if t is None:
            t = [(n, pl[1]) for n, (op, pl, ar) in enumerate(self.g.nodes) if op == 'lx' and pl[0] == lid]
            self.lxneed[lid] = t
        return t

    def loop(self, pit, e):
        L = e.loop
        cur = {}
        for pid, (c, i, nx, ph) in L.phis.items():
            for q, x in zip(c if isinstance(c, tuple) else (c,), i if isinstance(i, tuple) else (i,)):
                cur[q] = pit.ev(x)
        need = self.lxs(L.id)
        for k in range(self.limit):
            p2 = pit.child({**cur, L.k: k})
            p2.frame = pit.frame
            p2.v.update({n: x for n, x in self.dyn.items()}) if False else None
            self.run(p2, L.effects)
            out = [x for x in L.exits if p2.ev(x[2])]
            if out:
                fr, to = out[0][0], out[0][1]
                for (f2, t2, ec, em) in L.exits:
                    n = self.g.key.get(('exitvia', (L.id, f2, t2), ()))
                    if n is not None:
                        self.dyn[n] = pit.v[n] = 1 if (f2, t2) == (fr, to) else 0
                for n, src in need:
                    if self.usable(p2, src):
                        self.dyn[n] = pit.v[n] = p2.ev(src)
                return
            nxt = {}
            for pid, (c, i, nx, ph) in L.phis.items():
                for q, x in zip(c if isinstance(c, tuple) else (c,), nx if isinstance(nx, tuple) else (nx,)):
                    nxt[q] = p2.ev(x)
            cur = nxt
        raise Broken('loop does not end within the evaluation limit')

    def usable(self, pit, n):
        return True


def tysize(ty):
    mt = re.match(r'^\[(\d+) x (.*)\]$', ty)
    if mt:
        z = tysize(mt[2])
        return z and int(mt[1]) * z
    return {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'float': 4, 'double': 8, 'ptr': 8}.get(ty)


class AModel(Model):
    """model whose reals carry approximations"""

    def pit(self, env=None, **k):
        p = Model.pit(self, env, **k)
        p.approx = getattr(self, "approx", None)
        self.binv = p.binv = getattr(self, "binv", {})
        self.fbits = p.fbits = getattr(self, "fbits", {})
        p.forced = getattr(self, 'forced', None)
        if getattr(self, 'strict', None):
            p.strict = True
        return p

    def hook(self, pit, x, op, pl, ar):
        if op == 'uf':
            u = getattr(self, 'ufun', None)
            r = u(pl, [pit.v[y] for y in ar], pit) if u else None
            if r is not None:
                return r
        if op == 'ld' and isinstance(pl, tuple) and pl and pl[0] == 'O':
            r = self.dyn.get(x)
            return r if r is not None else self.rnd.h(6, x)
        if op in ('call', 'exitvia', 'lx', 'xv'):
            r = self.dyn.get(x)
            if r is not None:
                return r
            if op == 'exitvia':
                return 0
            return None if op == 'xv' else self.rnd.h(6, x)
        if op == 'alloca':
            return self.rnd.h(7, x, getattr(pit, 'frame', 0))
        return Model.hook(self, pit, x, op, pl, ar)

    def setf(self, a, q):
        """a real number in memory"""
        if not hasattr(self, 'fty'):
            self.fty = {}
        self.mem[a % P] = self.real(q)
        self.fty[a % P] = True

    def real(self, q):
        """field element of a rational, with its approximation"""
        q = Fraction(q)
        v = q.numerator * pow(q.denominator, P - 2, P) % P
        if self.approx is None:
            self.approx = {0: 0.0}
        self.approx[v] = float(q)
        return v

    def statics(self, mod):
        """initial values of all internal globals"""
        self.smod = mod
        for n, gl in mod.globals.items():
            if gl['internal'] and gl.get('init') and not n.startswith('.str'):
                self.ginit(self.rnd.h(3, vg.crc(n)), gl['init'], gl['ty'])

    def ginit(self, a, c, ty):
        k = c[0]
        if k == 'null':
            self.mem[a % P] = 0
        elif k == 'c':
            self.mem[a % P] = c[1] % P
        elif k == 'f':
            self.setf(a, Fraction(c[1]))
        elif k == 'fn' and hasattr(self, 'fty'):
            self.mem[a % P] = self.rnd.h(4, vg.crc(c[1]))
            self.fty[a % P] = False
        elif k == 'g' and len(c) == 2 and hasattr(self, 'fty'):
            self.mem[a % P] = self.rnd.h(3, vg.crc(c[1]))
            self.fty[a % P] = False
        elif k == 'agg' and c[1].startswith('['):
            mt = re.match(r'^\[\d+ x (.*)\]$', c[1])
            sz = tysize(mt[1])
            if not sz and mt[1].startswith('%'):
                st = self.smod.structs.get(re.sub(r'^%(struct|class)\.', '', mt[1]))
                sz = st.size if st else None
            for j, x in enumerate(c[2]):
                if sz:
                    self.ginit(a + j * sz, x, mt[1])
        elif k == 'agg':
            s = self.smod.structs.get(c[1].replace('%struct.', '').replace('%class.', ''))
            if s and len(s.members) == len(c[2]):
                for x, y in zip(s.members, c[2]):
                    if y[0] in ('fn', 'g', 'null', 'c', 'f') or y[0] == 'data' and y[1] == 'str':
                        self.ginit(a + x[1], y, '')
        elif k == 'data' and c[1] == 'str':
            if len(c[2]) < 512:
                for j, x in enumerate(c[2]):
                    self.mem[(a + j) % P] = ord(x)
        elif k == 'data' and c[1] == 'seq':
            sz = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'float': 4, 'double': 8, 'ptr': 8}.get(ty.split(' x ')[-1].rstrip(']'), None)
            if sz and ty.count('[') == 1:
                for j, x in enumerate(c[2]):
                    self.ginit(a + j * sz, x, '')
        elif k == 'zero':
            mt = re.match(r'^\[(\d+) x (\w+)\]$', ty)
            if mt:
                sz = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'float': 4, 'double': 8, 'ptr': 8}.get(mt[2])
                if sz and int(mt[1]) < 4096:
                    for j in range(int(mt[1])):
                        self.mem[(a + j * sz) % P] = 0
