"""Value graph: gated-SSA value numbering of IR functions.

Every SSA value becomes a hash-consed node; integers and pointers are kept as
polynomials over opaque atoms (so addresses are affine in loop counters), joins
become gates on path conditions, loops are summarised per iteration (induction
variables solved, other header phis opaque), memory is a map from symbolic
addresses.  Node equality is decided by Pit (random interpretation: algebraic
operations over a prime field, everything else uninterpreted).
"""
import re, sys, zlib
import struct
from fractions import Fraction

sys.setrecursionlimit(1000000)
P = (1 << 61) - 1


def crc(s):
    return zlib.crc32(s.encode())


class Graph:
    def __init__(self):
        self.key = {}
        self.nodes = []          # (op, payload, args)
        self.root = {}           # pointer node -> root atom
        self.seq = 0
        self.meta = {}           # node -> info (source loc etc)
        self._dep = {}
        self.TRUE = self.mk('true')
        self.FALSE = self.mk('false')
        self.ZERO = self.c(0)

    def mk(self, op, payload=None, args=()):
        k = (op, payload, args)
        n = self.key.get(k)
        if n is None:
            n = len(self.nodes)
            self.nodes.append(k)
            self.key[k] = n
        return n

    def fresh(self):
        self.seq += 1
        return self.seq

    # ---- integers / pointers -------------------------------------------
    def c(self, v):
        return self.mk('poly', ((((), v),) if v else ()))

    def poly(self, n):
        op, pl, _ = self.nodes[n]
        if op == 'poly':
            return dict(pl)
        return {(n,): 1}

    def mkpoly(self, d):
        it = tuple(sorted((m, c) for m, c in d.items() if c))
        if len(it) == 1 and it[0][1] == 1 and len(it[0][0]) == 1:
            return it[0][0][0]
        return self.mk('poly', it)

    def const(self, n):
        op, pl, _ = self.nodes[n]
        if op == 'poly':
            if not pl:
                return 0
            if len(pl) == 1 and pl[0][0] == ():
                return pl[0][1]
        return None

    def add(self, a, b, kb=1):
        d = self.poly(a)
        for m, c in self.poly(b).items():
            d[m] = d.get(m, 0) + c * kb
        n = self.mkpoly(d)
        r = self.root.get(a)
        if r is None and kb == 1:
            r = self.root.get(b)
        if r is not None and n not in self.root:
            self.root[n] = r
        return n

    def sub(self, a, b):
        return self.add(a, b, -1)

    def scale(self, a, k):
        return self.mkpoly({m: c * k for m, c in self.poly(a).items()})

    def mul(self, a, b):
        pa, pb = self.poly(a), self.poly(b)
        if len(pa) * len(pb) > 400:
            return self.mk('imul', None, tuple(sorted((a, b))))
        d = {}
        for m, c in pa.items():
            for m2, c2 in pb.items():
                mm = tuple(sorted(m + m2))
                d[mm] = d.get(mm, 0) + c * c2
        return self.mkpoly(d)

    # ---- booleans --------------------------------------------------------
    def nt(self, a):
        if a == self.TRUE:
            return self.FALSE
        if a == self.FALSE:
            return self.TRUE
        op, pl, ar = self.nodes[a]
        if op == 'not':
            return ar[0]
        if op == 'or':
            return self.and_([self.nt(x) for x in ar])
        return self.mk('not', None, (a,))

    def lits(self, a):
        if a == self.TRUE:
            return frozenset()
        op, pl, ar = self.nodes[a]
        if op == 'and':
            return frozenset(ar)
        return frozenset((a,))

    def and_(self, xs):
        s = set()
        for x in xs:
            if x == self.FALSE:
                return x
            s |= self.lits(x)
        s.discard(self.TRUE)
        for x in s:
            if self.nt(x) in s:
                return self.FALSE
        if not s:
            return self.TRUE
        if len(s) == 1:
            return next(iter(s))
        return self.mk('and', None, tuple(sorted(s)))

    def or_(self, xs):
        xs = [x for x in dict.fromkeys(xs) if x != self.FALSE]
        if not xs:
            return self.FALSE
        if self.TRUE in xs:
            return self.TRUE
        if len(xs) == 1:
            return xs[0]
        ls = [self.lits(x) for x in xs]
        com = frozenset.intersection(*ls)
        rest = [self.and_(l - com) for l in ls]
        if self.TRUE in rest:
            return self.and_(com)
        rs = set(rest)
        # absorb complementary pairs
        for r in list(rs):
            if self.nt(r) in rs:
                return self.and_(com)
        # x or (not x and y) -> x or y
        ch = True
        while ch:
            ch = False
            for r in list(rs):
                nr = self.nt(r)
                for q in list(rs):
                    if q != r and nr in self.lits(q):
                        rs.discard(q)
                        q2 = self.and_(self.lits(q) - {nr})
                        if q2 == self.TRUE:
                            return self.and_(com)
                        rs.add(q2)
                        ch = True
                        break
                if ch:
                    break
        if len(rs) == 1:
            o = next(iter(rs))
        else:
            o = self.mk('or', None, tuple(sorted(rs)))
        return self.and_(list(com) + [o])

    def ite(self, c, a, b):
        if c == self.TRUE or a == b:
            return a
        if c == self.FALSE:
            return b
        op, pl, ar = self.nodes[c]
        if op == 'not':
            return self.ite(ar[0], b, a)
        if a == self.TRUE and b == self.FALSE:
            return c
        if a == self.FALSE and b == self.TRUE:
            return self.nt(c)
        if a == self.TRUE:
            return self.or_([c, b])
        if b == self.FALSE:
            return self.and_([c, a])
        if a == self.FALSE:
            return self.and_([self.nt(c), b])
        if b == self.TRUE:
            return self.or_([self.nt(c), a])
        n = self.mk('ite', None, (c, a, b))
        r = self.root.get(a)
        if r is None:
            r = self.root.get(b)
        if r is not None:
            self.root.setdefault(n, r)
        return n

    def le0(self, p):
        k = self.const(p)
        if k is not None:
            return self.TRUE if k <= 0 else self.FALSE
        # canonical sign:  p<=0  <=>  not(1-p<=0)
        q = self.sub(self.c(1), p)
        if self._neg(p):
            return self.nt(self.mk('le0', None, (q,)))
        return self.mk('le0', None, (p,))

    def _neg(self, p):
        pl = self.poly(p)
        ks = sorted(m for m in pl if m != ())
        return pl[ks[-1]] < 0

    def eq0(self, p):
        k = self.const(p)
        if k is not None:
            return self.TRUE if k == 0 else self.FALSE
        if self._neg(p):
            p = self.scale(p, -1)
        return self.mk('eq0', None, (p,))

    # ---- generic ---------------------------------------------------------
    def ptr(self, n):
        self.root.setdefault(n, n)
        return n

    def rootof(self, a):
        r = self.root.get(a)
        if r is not None:
            return r
        op, pl, ar = self.nodes[a]
        if op == 'poly':
            for m, c in pl:
                if len(m) == 1 and m[0] in self.root:
                    return self.root[m[0]]
        return a

    def deps(self, n):
        """set of leaf-ish nodes (mu,k,call,ld,...) a node depends on (memo)"""
        d = self._dep.get(n)
        if d is not None:
            return d
        # iterative post-order: DAG can be deep
        st = [n]
        while st:
            x = st[-1]
            if x in self._dep:
                st.pop()
                continue
            op, pl, ar = self.nodes[x]
            ch = self.children(x)
            todo = [c for c in ch if c not in self._dep]
            if todo:
                st.extend(todo)
                continue
            s = set()
            if op in ('mu', 'k', 'call', 'ld', 'mux', 'arg', 'alloca', 'sum', 'exitv', 'opaque', 'global'):
                s.add(x)
            for c in ch:
                s |= self._dep[c]
            self._dep[x] = frozenset(s)
            st.pop()
        return self._dep[n]

    def children(self, n):
        op, pl, ar = self.nodes[n]
        if op == 'poly':
            return [a for m, c in pl for a in m]
        return list(ar)

    def subst(self, n, env, memo=None):
        if memo is None:
            memo = {}
        st = [n]
        while st:
            x = st[-1]
            if x in memo:
                st.pop()
                continue
            if x in env:
                memo[x] = env[x]
                st.pop()
                continue
            ch = self.children(x)
            todo = [c for c in ch if c not in memo]
            if todo:
                st.extend(todo)
                continue
            memo[x] = self.rebuild(x, memo)
            st.pop()
        return memo[n]

    def rebuild(self, x, memo):
        op, pl, ar = self.nodes[x]
        if op == 'poly':
            out = self.c(0)
            for m, c in pl:
                t = self.c(c)
                for a in m:
                    t = self.mul(t, memo[a])
                out = self.add(out, t)
            if x in self.root and out not in self.root:
                self.root[out] = memo.get(self.root[x], self.root[x])
            return out
        if not ar:
            return x
        na = tuple(memo[a] for a in ar)
        if na == ar:
            return x
        if op == 'and':
            return self.and_(list(na))
        if op == 'or':
            return self.or_(list(na))
        if op == 'not':
            return self.nt(na[0])
        if op == 'ite':
            return self.ite(*na)
        if op == 'le0':
            return self.le0(na[0])
        if op == 'eq0':
            return self.eq0(na[0])
        n = self.mk(op, pl, na)
        if x in self.root:
            self.root.setdefault(n, n if self.root[x] == x else memo.get(self.root[x], self.root[x]))
        return n

    # ---- printing --------------------------------------------------------
    def show(self, n, depth=6, names=None):
        names = names or {}
        if n in names:
            return names[n]
        op, pl, ar = self.nodes[n]
        if depth <= 0 and op not in ('poly', 'arg', 'k', 'mu'):
            return '..'
        s = lambda a: self.show(a, depth - 1, names)
        if op == 'poly':
            if not pl:
                return '0'
            out = []
            for m, c in pl:
                t = '*'.join(s(a) for a in m)
                if not m:
                    out.append(str(c))
                elif c == 1:
                    out.append(t)
                else:
                    out.append(f'{c}*{t}')
            return '(' + '+'.join(out) + ')' if len(out) > 1 else out[0]
        if op == 'arg':
            return f'arg{pl[1]}'
        if op == 'f':
            return str(pl)
        if op == 'ld':
            return f'[{s(ar[0])}]' + (f"'{pl}" if pl else '')
        if op in ('k', 'mu', 'mux'):
            return f'{op}{pl}'
        if op == 'not':
            return '!' + s(ar[0])
        if op == 'le0':
            return f'({s(ar[0])}<=0)'
        if op == 'eq0':
            return f'({s(ar[0])}==0)'
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            return '(' + s(ar[0]) + {'fadd': '+', 'fsub': '-', 'fmul': '*', 'fdiv': '/'}[op] + s(ar[1]) + ')'
        return f'{op}' + (f'<{pl}>' if pl is not None else '') + ('(' + ','.join(s(a) for a in ar) + ')' if ar else '')


EPS = Fraction(1, 10**30)


class Pit:
    """random interpretation of graph nodes over GF(2^61-1)"""
    ROOTS = set()   # arguments of square roots that do not exist in the field

    def __init__(self, g, seed, env=None, ignore_ver=True, hook=None):
        self.g = g
        self.seed = seed
        self.v = dict(env or {})
        self.ignore_ver = ignore_ver
        self.hook = hook
        self.binv = {}
        self.fbits = {}
        self.roots = {}
        self.env0 = dict(env or {})
        self.parent = None
        self.reads = None
        self.forced = None
        self.approx = None
        self.frame = 0
        self.nr = [0]

    def h(self, *a):
        x = hash((self.seed,) + a) & ((1 << 64) - 1)
        x ^= x >> 30
        x = x * 0xbf58476d1ce4e5b9 & ((1 << 64) - 1)
        x ^= x >> 27
        x = x * 0x94d049bb133111eb & ((1 << 64) - 1)
        x ^= x >> 31
        return x % P

    @staticmethod
    def signed(v):
        return v - P if v > P // 2 else v

    def small(self, v):
        s = self.signed(v)
        return s if -(1 << 40) < s < (1 << 40) else None

    def sgn(self, v):
        """consistent pseudo-random sign of a field value"""
        if v == 0:
            return 0
        if self.approx is not None:
            f = self.approx.get(v)
            if f is None:
                f = self.approx.get(P - v)
                f = -f if f is not None else None
            if f is not None and f != 0:
                return 1 if f > 0 else -1
        if self.forced:
            f = self.forced.get(v)
            if f is not None:
                return f
            f = self.forced.get(P - v)
            if f is not None:
                return -f
        s = self.small(v)
        if s is not None:
            return 1 if s > 0 else -1
        m = min(v, P - v)
        b = self.h(77, m) & 1
        return (1 if b else -1) * (1 if m == v else -1)

    def apx(self, v):
        f = self.approx.get(v)
        if f is None:
            f = self.approx.get(P - v)
            if f is not None:
                return -f
            s = self.small(v)
            return float(s) if s is not None else None
        return f

    def polyapx(self, t, pl):
        """approximation of a polynomial whose atoms all have one (at least one of them a real)"""
        v, ap = self.v, self.approx
        f, real = 0.0, False
        for m, c in pl:
            q = ratrec(c) if not -(1 << 40) < self.signed(c) < (1 << 40) else self.signed(c)
            if q is None:
                return
            q = float(q)
            for a in m:
                x = self.apx(v[a])
                if x is None:
                    return
                if v[a] in ap or P - v[a] in ap:
                    real = True
                q *= x
            f += q
        if real:
            ap[t] = f

    def le0(self, v):
        s = self.small(v)
        if s is not None:
            return 1 if s <= 0 else 0
        u = (1 - v) % P
        m = min(u, v)
        b = self.h(78, m) & 1
        return b if m == v else 1 - b

    def sqrt(self, v):
        # square roots exist for half of the field; otherwise uninterpreted
        if v == 0 or v == 1:
            return v
        if pow(v, (P - 1) // 2, P) == 1:
            r = pow(v, (P + 1) // 4, P)
            return r     # the root that is a square itself: multiplicative, sqrt(1/a) == 1/sqrt(a)
        self.nr[0] += 1
        Pit.ROOTS.add(v)
        return self.h(80, v)

    def child(self, env):
        p = Pit(self.g, self.seed, self.env0, self.ignore_ver, self.hook)
        p.v.update(env)
        p.env0 = dict(self.env0)
        p.env0.update(env)
        p.parent = self
        p.reads = self.reads
        p.forced = self.forced
        p.approx = self.approx
        p.frame = self.frame
        p.binv = self.binv
        p.fbits = self.fbits
        p.nr = self.nr
        if getattr(self, 'strict', None):
            p.strict = True
        return p

    def ev(self, n):
        v = self.v
        if n in v:
            return v[n]
        g = self.g
        st = [n]
        while st:
            x = st[-1]
            if x in v:
                st.pop()
                continue
            op, pl, ar = g.nodes[x]
            # lazy gates
            if op == 'ite':
                c = ar[0]
                if c not in v:
                    st.append(c)
                    continue
                b = ar[1] if v[c] else ar[2]
                if b not in v:
                    st.append(b)
                    continue
                v[x] = v[b]
                st.pop()
                continue
            ch = g.children(x)
            todo = [c for c in ch if c not in v]
            if todo:
                st.extend(todo)
                continue
            v[x] = self.ev1(x, op, pl, ar)
            st.pop()
        return v[n]

    def ev1(self, x, op, pl, ar):
        v = self.v
        if self.hook:
            r = self.hook(self, x, op, pl, ar)
            if r is not None:
                return r
        if op == 'poly':
            t = 0
            for m, c in pl:
                q = c
                for a in m:
                    q = q * v[a] % P
                t += q
            t %= P
            if self.approx is not None and t not in self.approx:
                self.polyapx(t, pl)
            return t
        if op == 'f':
            if -EPS < pl < EPS:
                return 0
            r = pl.numerator * pow(pl.denominator, P - 2, P) % P
            if self.approx is not None:
                self.approx[r] = float(pl)
            return r
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            x, y = v[ar[0]], v[ar[1]]
            if op == 'fadd':
                r = (x + y) % P
            elif op == 'fsub':
                r = (x - y) % P
            elif op == 'fmul':
                r = x * y % P
            elif y == 0 and x and self.approx is not None:
                r = self.h(85, x)       # beyond every finite value
                self.approx[r] = 1e38 if self.sgn(x) > 0 else -1e38
                return r
            else:
                r = x * pow(y, P - 2, P) % P
            ap = self.approx
            if ap is not None and r not in ap:
                p, q = self.apx(x), self.apx(y)
                if p is not None and q is not None and not (op == 'fdiv' and q == 0):
                    ap[r] = p + q if op == 'fadd' else p - q if op == 'fsub' else p * q if op == 'fmul' else p / q
            return r
        if op == 'fneg':
            return (-v[ar[0]]) % P
        if op == 'true':
            return 1
        if op == 'false':
            return 0
        if op == 'and':
            return 1 if all(v[a] for a in ar) else 0
        if op == 'or':
            return 1 if any(v[a] for a in ar) else 0
        if op == 'not':
            return 0 if v[ar[0]] else 1
        if op == 'le0':
            return self.le0(v[ar[0]])
        if op == 'eq0':
            return 1 if v[ar[0]] == 0 else 0
        if op == 'fcmp':
            d = (v[ar[0]] - v[ar[1]]) % P
            s = None
            if self.approx is not None and d:
                x, y = self.apx(v[ar[0]]), self.apx(v[ar[1]])
                if x is not None and y is not None:
                    s = 1 if x > y else -1
            if s is None:
                s = self.sgn(d)
            return 1 if {'lt': s < 0, 'le': s <= 0, 'gt': s > 0, 'ge': s >= 0, 'eq': s == 0, 'ne': s != 0}[pl] else 0
        if op == 'sqrt':
            r = self.sqrt(v[ar[0]])
            if self.approx is not None and r not in self.approx:
                a = self.apx(v[ar[0]])
                if a is not None and a >= 0:
                    self.approx[r] = a ** 0.5
            return r
        if op == 'fabs':
            q = v[ar[0]]
            return q if self.sgn(q) >= 0 else P - q
        if op == 'copysign':
            m, s = v[ar[0]], v[ar[1]]
            m = m if self.sgn(m) >= 0 else P - m
            return m if self.sgn(s) >= 0 else (P - m) % P
        if op == 'ld':
            return self.h(1, 0 if self.ignore_ver else hash_pl(pl), v[ar[0]])
        if op == 'rcp':
            r = pow(v[ar[0]], P - 2, P)
            if self.approx is not None and r not in self.approx:
                a = self.apx(v[ar[0]])
                if a:
                    self.approx[r] = 1 / a
            return r
        if op == 'bits':
            return self._bits(v[ar[0]])
        if op == 'unbits':
            return self._unbits(v[ar[0]])
        if op in ('iand', 'ior', 'ixor'):
            return self.bitop(op, v[ar[0]], v[ar[1]])
        if op in ('idiv', 'irem', 'shr', 'shl'):
            a, b = self.small(v[ar[0]]), self.small(v[ar[1]])
            if a is not None and b is not None and (b or op in ('shr', 'shl')):
                if op == 'shr':
                    return (a >> b) % P
                if op == 'shl':
                    return (a << b) % P
                q = abs(a) // abs(b)
                q = q if (a < 0) == (b < 0) else -q
                return (q if op == 'idiv' else a - q * b) % P
        if op == 'ftoi' or op == 'ftoi_r':
            q = ratrec(v[ar[0]])
            if q is None:
                q = ratrec(v[ar[0]], 1 << 34)
                q = q if q is not None and q.denominator <= 512 else None
            if q is not None:
                return (int(q) if op == 'ftoi' else round(q)) % P
        if op == 'trunc':
            a = self.small(v[ar[0]])
            if a is not None:
                w = 1 << int(pl[1:])
                a &= w - 1
                return (a - w if a >= w // 2 else a) % P
            return v[ar[0]]
        if op == 'zx':
            a = self.small(v[ar[0]])
            return v[ar[0]] if a is None or a >= 0 else (a + (1 << pl)) % P
        if op == 'count':
            for j in range(4096):
                if not self.child({ar[1]: j}).ev(ar[0]):
                    return j
        if op == 'sum':
            # closed reduction over a counted loop
            n = self.small(v[ar[1]])
            kn = self.g.key.get(('k', pl, ()))
            if n is not None and 0 <= n < 4096 and kn is not None:
                t = 0
                for j in range(n):
                    t += self.child({kn: j}).ev(ar[0])
                return t % P
        if op == 'arg':
            return self.h(2, pl[1])
        if op == 'global':
            return self.h(3, crc(pl))
        if op == 'fn':
            return self.h(4, crc(pl))
        return self.h(5, crc(op), hash_pl(pl), *[v[a] for a in ar])

    def bitop(self, op, a, b):
        M1 = P - 1
        if op == 'iand':
            if a == 0 or b == 0:
                return 0
            if a == M1:
                return b
            if b == M1:
                return a
            for x, y in ((a, b), (b, a)):
                s = self.small(y)
                if 1 << 44 <= x < 1 << 46 and s is not None and s < 0 and s & (-s) == -s:
                    return x & s   # an address in an allocated block, aligned
                if s is not None and (s & 0xffffffff) == 0x7fffffff and x in self.binv:
                    q = self.binv[x]
                    return self._bits(q if self.sgn(q) >= 0 else P - q)
                if s is not None and (s & 0xffffffff) == 0x80000000 and x in self.binv:
                    q = self.binv[x]
                    return (0 if self.sgn(q) >= 0 else self.signbit())
        if op == 'ior':
            if a == 0:
                return b
            if b == 0:
                return a
            if a == M1 or b == M1:
                return M1
            for x, y in ((a, b), (b, a)):
                if y == self.signbit() and x in self.binv:
                    q = self.binv[x]
                    return self._bits((P - q) % P if self.sgn(q) >= 0 else q)
        if op == 'ixor':
            if a == 0:
                return b
            if b == 0:
                return a
            if a == M1:
                return (-1 - b) % P
            if b == M1:
                return (-1 - a) % P
            for x, y in ((a, b), (b, a)):
                s = self.small(y)
                if ((s is not None and (s & 0xffffffff) == 0x80000000) or y == self.signbit()) and x in self.binv:
                    return self._bits((P - self.binv[x]) % P)
                if (s is not None and (s & 0xffffffff) == 0x80000000) and self.approx is not None and x in self.approx:
                    return (P - x) % P
        p, q = self.small(a), self.small(b)
        if p is not None and q is not None and a not in self.binv and b not in self.binv:
            return {'iand': p & q, 'ior': p | q, 'ixor': p ^ q}[op] % P
        x, y = min(a, b), max(a, b)
        return self.h(83, crc(op), x, y)

    def signbit(self):
        return (-2147483648) % P

    def _unbits(self, q):
        if q == 0:
            return 0
        if q in self.binv:
            return self.binv[q]
        if q == self.signbit():
            return 0
        s = self.small(q) if self.approx is not None else None
        if s is not None and -(1 << 31) <= s < 1 << 32 and 0 < (s >> 23 & 255) < 255:
            fr = frac_const(struct.unpack('f', struct.pack('I', s & 0xffffffff))[0])
            if -EPS < fr < EPS:
                return 0
            r = fr.numerator * pow(fr.denominator, P - 2, P) % P
            self.approx[r] = float(fr)
            return r
        if s is not None:
            r = self.h(84, q)       # bit pattern that is no number (mask)
            self.fbits[r] = q
            return r
        if getattr(self, 'strict', None):
            r = self.h(84, q)
            self.fbits[r] = q
            return r
        return q

    def _bits(self, q):
        if q in self.fbits:
            return self.fbits[q]
        r = self.h(81, q) if q else 0
        self.binv[r] = q
        return r


def ratrec(v, lim=1 << 20):
    """small rational represented by a field value (or None)"""
    r0, r1, t0, t1 = P, v % P, 0, 1
    while r1 > lim:
        q = r0 // r1
        r0, r1 = r1, r0 - q * r1
        t0, t1 = t1, t0 - q * t1
    if t1 == 0 or abs(t1) > lim:
        return None
    return Fraction(r1, t1)


def hash_pl(pl):
    if pl is None:
        return 0
    if isinstance(pl, int):
        return pl
    return crc(repr(pl))


def frac_const(s):
    d = float(s)
    if d != d or d in (float('inf'), float('-inf')):
        return None
    f = Fraction(d)
    if f.denominator <= 4096:
        return f
    # recover short rationals rounded to float precision (1/3, 1/60, ...)
    q = f.limit_denominator(10000)
    if q and abs(q - f) <= abs(f) * Fraction(1, 5000000):
        return q
    # constants rounded to single precision and to double precision are the same constant
    import struct
    try:
        return Fraction(struct.unpack('f', struct.pack('f', d))[0])
    except OverflowError:
        return f


class Mem:
    __slots__ = ('d', 'dirty', 'kdirty')

    def __init__(self, o=None):
        if o:
            self.d = dict(o.d)
            self.dirty = dict(o.dirty)
            self.kdirty = dict(o.kdirty)
        else:
            self.d = {}
            self.dirty = {}
            self.kdirty = {}


class Effect:
    __slots__ = ('kind', 'guard', 'addr', 'val', 'callee', 'args', 'res', 'ins', 'loop', 'sz', 'fn', 'argmem', 'order', 'ity', 'keep')

    def __init__(self, kind, guard, ins=None, **k):
        self.kind = kind
        self.guard = guard
        self.ins = ins
        self.addr = self.val = self.callee = self.args = self.res = self.loop = self.sz = self.fn = self.argmem = self.keep = None
        for a, b in k.items():
            setattr(self, a, b)


class Loop:
    def __init__(self):
        self.id = None
        self.k = None
        self.trips = None
        self.form = None
        self.phis = {}     # phi id -> (node in body, init, next)
        self.effects = []
        self.cont = None
        self.header = None
        self.ins = None
        self.parent = None
        self.single = None


VEC = re.compile(r'^<(\d+) x (.+)>$')


def vecty(t):
    m = VEC.match(t)
    return (int(m.group(1)), m.group(2)) if m else None


def scalar_size(t):
    if t == 'float' or t == 'i32':
        return 4
    if t == 'double' or t == 'i64' or t == 'ptr':
        return 8
    if t == 'i16' or t == 'half':
        return 2
    if t in ('i8', 'i1'):
        return 1
    return 4


PURE = re.compile(r'^(mp_|log_printf|malloc_aligned|free|omp_get|thread|MPI_|_Z\d*nodump)')


class Build:
    """value graph of one function"""

    def __init__(self, g, f, args=None, clobber=None, mem=None, tag=None):
        self.g = g
        self.f = f
        self.mod = f.mod
        self.tag = tag or f.name
        self.clobber = clobber or (lambda callee, e: False)
        self.argn = args or {}
        self.val = {}
        self.mem0 = Mem()
        self.loopid = {h: (self.tag, i) for i, h in enumerate(sorted(f.loops, key=lambda h: f.rpoi[h]))}
        self.loops = {}
        self.phisub = {}
        self.inv_start = {}
        self.order = 0
        self.retval = None
        self.effects, self.exits, self.memout = self.region(None, Mem(mem) if mem else Mem(), g.TRUE)

    # ------------------------------------------------------------------
    def opnd(self, o):
        g = self.g
        k = o[0]
        if k == 'i':
            v = self.val.get(o[1])
            if v is None:
                v = g.mk('opaque', (self.tag, 'undefd', o[1]))
            return v
        if k == 'a':
            if o[1] in self.argn:
                return self.argn[o[1]]
            n = g.mk('arg', (self.tag, o[1]))
            if self.f.args[o[1]][1] == 'ptr':
                g.ptr(n)
            return n
        if k == 'c':
            if o[2] == 1:
                return g.TRUE if o[1] else g.FALSE
            return g.c(o[1])
        if k == 'f':
            fr = frac_const(o[1])
            if fr is None:
                return g.mk('fc', o[1])
            return g.mk('f', fr)
        if k == 'null':
            return g.c(0)
        if k == 'undef':
            vt = vecty(o[1])
            if vt:
                return tuple(g.mk('undef') for _ in range(vt[0]))
            return g.mk('undef')
        if k == 'fn':
            return g.mk('fn', o[1])
        if k == 'g':
            return g.ptr(g.mk('global', o[1]))
        if k == 'gepc':
            return g.add(self.opnd(o[1]), g.c(o[2]))
        if k == 'zero':
            vt = vecty(o[1])
            if vt:
                return tuple(self._zero(vt[1]) for _ in range(vt[0]))
            return g.mk('zero', o[1])
        if k == 'data':
            if o[1] == 'seq':
                return tuple(self.opnd(x) for x in o[2])
            return g.mk('str', o[2])
        if k == 'agg':
            return tuple(self.opnd(x) for x in o[2])
        if k == 'ce':
            if o[1] in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
                return self.opnd(o[2][0])
            return g.mk('ce', (o[1], o[3]), tuple(self.opnd(x) for x in o[2]))
        return g.mk('opaque', repr(o))

    def _zero(self, t):
        if t in ('float', 'double'):
            return self.g.mk('f', Fraction(0))
        if t == 'i1':
            return self.g.FALSE
        return self.g.c(0)

    # ------------------------------------------------------------------
    def region(self, L, mem, cond0):
        """evaluate the body of loop header L (or the whole function)"""
        g, f = self.g, self.f
        inside = set(f.loops[L]) if L is not None else set(f.rpo)
        start = L if L is not None else 0
        items = []
        for b in f.rpo:
            if b not in inside:
                continue
            l = f.loop_of[b]
            if l == L:
                items.append(b)
            elif b == l and f.parent[l] == L:
                items.append(b)
        edges = {}            # target -> list of (pred block, cond, mem)
        conds = {}
        effects = []
        exits = []            # (from, to, cond, mem)
        back = []
        edges[start] = [(None, cond0, mem)]
        self.rets = []
        for b in items:
            inc = edges.get(b, [])
            if not inc:
                continue
            isloop = b in f.loops and b != L
            # condition
            d = f.idom.get(b)
            c = g.or_([x[1] for x in inc])
            if len(inc) > 1 and d in conds and f.postdominates(b, d):
                c = conds[d]
            conds[b] = c
            m = self.merge(inc)
            if isloop:
                lp, outs = self.loop(b, inc, m, c)
                effects.append(Effect('loop', c, loop=lp, order=self.fresh()))
                for (fr, to, ec, em) in outs:
                    if to in inside and not (to == L):
                        edges.setdefault(to, []).append((fr, ec, em))
                        conds.setdefault(fr, c)
                    elif to == L:
                        back.append((fr, to, ec, em))
                    else:
                        exits.append((fr, to, ec, em))
                continue
            m = Mem(m)
            # phis
            if not (b == L):
                newv = {}
                for i in f.blocks[b]:
                    if i['op'] != 'phi':
                        break
                    vs = []
                    for (pb, ec, em) in inc:
                        for (pp, o) in i['o']:
                            if pp == pb:
                                vs.append((ec, self.opnd(o)))
                                break
                    newv[i['id']] = self.gate(vs, c)
                self.val.update(newv)
            for i in f.blocks[b]:
                if i['op'] == 'phi':
                    continue
                self.instr(i, m, c, effects)
            t = f.blocks[b][-1]
            succs = []
            if t['op'] == 'br':
                if t['o']:
                    cv = self.opnd(t['o'][0])
                    a, e = t['succ']
                    if a in f.dead and e not in f.dead:
                        effects.append(Effect('abort', g.and_([c, cv]), t))
                        succs = [(e, c)]
                    elif e in f.dead and a not in f.dead:
                        effects.append(Effect('abort', g.and_([c, g.nt(cv)]), t))
                        succs = [(a, c)]
                    elif a == e:
                        succs = [(a, c)]
                    else:
                        succs = [(a, g.and_([c, cv])), (e, g.and_([c, g.nt(cv)]))]
                else:
                    succs = [(t['succ'][0], c)]
            elif t['op'] == 'switch':
                cv = self.opnd(t['o'][0])
                eqs = []
                byt = {}
                for cval, tb in t['cases']:
                    e = g.eq0(g.sub(cv, g.c(cval)))
                    eqs.append(e)
                    byt.setdefault(tb, []).append(e)
                dflt = t['succ'][0]
                dc = g.and_([g.nt(e) for e in eqs])
                if dflt in f.dead:
                    effects.append(Effect('abort', g.and_([c, dc]), t))
                else:
                    byt.setdefault(dflt, []).append(dc)
                for tb, es in byt.items():
                    if tb in f.dead:
                        effects.append(Effect('abort', g.and_([c, g.or_(es)]), t))
                        continue
                    succs.append((tb, g.and_([c, g.or_(es)])))
            elif t['op'] == 'invoke':
                succs = [(s, c) for s in t['succ'][:1]]
            elif t['op'] == 'ret':
                self.rets.append((c, self.opnd(t['o'][0]) if t['o'] else None, m))
                if L is not None:
                    pass
            for (s, ec) in succs:
                if s in f.dead:
                    continue
                if L is not None and s == L:
                    back.append((b, s, ec, m))
                elif s in inside:
                    edges.setdefault(s, []).append((b, ec, m))
                else:
                    exits.append((b, s, ec, m))
        if L is None:
            rv = [(c, v) for c, v, m in self.rets if v is not None]
            self.retval = self.gate(rv, g.TRUE) if rv else None
            mm = [(None, c, m) for c, v, m in self.rets]
            return effects, [], (self.merge(mm) if mm else mem)
        self._back = back
        return effects, exits, conds

    def fresh(self):
        self.order += 1
        return self.order

    def gate(self, vs, c):
        """vs: list of (edge condition, value) covering c"""
        g = self.g
        if not vs:
            return g.mk('undef')
        if any(isinstance(v, tuple) for _, v in vs):
            n = max(len(v) for _, v in vs if isinstance(v, tuple))
            def ex(v):
                return v if isinstance(v, tuple) else tuple([v] * n)
            return tuple(self.gate([(e, ex(v)[i]) for e, v in vs], c) for i in range(n))
        com = g.lits(c)
        out = vs[-1][1]
        if self.g.nodes[out][0] == 'undef' and len(vs) > 1:
            # an undefined value on one edge cannot be used: ignore that edge
            vs = [x for x in vs if self.g.nodes[x[1]][0] != 'undef'] or vs
            out = vs[-1][1]
        for e, v in reversed(vs[:-1]):
            if g.nodes[v][0] == 'undef':
                continue
            rel = g.and_(g.lits(e) - com)
            out = g.ite(rel, v, out)
        return out

    def merge(self, inc):
        g = self.g
        if len(inc) == 1:
            return inc[0][2]
        ms = [x[2] for x in inc]
        if all(m is ms[0] for m in ms):
            return ms[0]
        o = Mem()
        keys = {}
        for m in ms:
            for k, v in m.d.items():
                keys.setdefault(k, v[1])
        c = g.or_([x[1] for x in inc])
        # dirt
        for which in ('dirty', 'kdirty'):
            rs = set()
            for m in ms:
                rs |= set(getattr(m, which))
            for r in rs:
                tags = set(getattr(m, which).get(r, 0) for m in ms)
                getattr(o, which)[r] = tags.pop() if len(tags) == 1 else ('J', tuple(sorted(map(str, tags))))
        for k, sz in keys.items():
            vals = []
            for m in ms:
                x = m.d.get(k)
                if x is None:
                    vals.append(self.ldnode(m, k))
                else:
                    vals.append(x[0])
            if all(v == vals[0] for v in vals):
                o.d[k] = (vals[0], sz)
            else:
                o.d[k] = (self.gate([(x[1], v) for x, v in zip(inc, vals)], c), sz)
        return o

    def ldnode(self, m, a, isptr=False, ty=None):
        g = self.g
        r = g.rootof(a)
        v1 = m.kdirty.get(a, 0)
        v2 = m.dirty.get(r, 0)
        ver = v2 if v1 == 0 else (v1 if v2 == 0 else (v1, v2))
        n = g.mk('ld', ver, (a,))
        return n

    def constoff(self, a):
        """address is root + constant"""
        g = self.g
        r = g.rootof(a)
        return g.const(g.sub(a, r)) is not None

    # ------------------------------------------------------------------
    def loop(self, h, inc, mem, cond):
        g, f = self.g, self.f
        lid = self.loopid[h]
        k = g.mk('k', lid)
        phis = [i for i in f.blocks[h] if i['op'] == 'phi']
        init = {}
        for p in phis:
            vs = []
            for (pb, ec, em) in inc:
                for (pp, o) in p['o']:
                    if pp == pb:
                        vs.append((ec, self.opnd(o)))
            init[p['id']] = self.gate(vs, cond)
        cur = {}
        for p in phis:
            iv = init[p['id']]
            if isinstance(iv, tuple):
                cur[p['id']] = tuple(g.mk('mu', (lid, p['id'], j)) for j in range(len(iv)))
            else:
                n = g.mk('mu', (lid, p['id']))
                if p['t'] == 'ptr':
                    g.root[n] = g.rootof(iv) if g.rootof(iv) in g.root else n
                cur[p['id']] = n
        solved = {}
        wrote_roots, wrote_keys = {}, set()
        outer_val = dict(self.val)
        npass = 0
        while True:
            npass += 1
            self.val = dict(outer_val)
            self.val.update(cur)
            m = Mem(mem)
            for r in wrote_roots:
                m.dirty[r] = ('L', lid)
            for a in wrote_keys:
                m.kdirty[a] = ('L', lid)
            if wrote_roots or wrote_keys:
                m.d = {a: v for a, v in m.d.items() if a not in wrote_keys and (g.rootof(a) not in wrote_roots)}
            start_n = len(g.nodes)
            oseq = self.order
            effects, exits, conds = self.region(h, m, g.TRUE)
            back = self._back
            # writes
            nr, nk = set(wrote_roots), set(wrote_keys)
            self.collect_writes(effects, nr, nk)
            for (_, _, _, bm) in back:
                for r, t in bm.dirty.items():
                    if t != m.dirty.get(r, 0):
                        nr.add(r)
            changed = (nr != set(wrote_roots) or nk != wrote_keys)
            wrote_roots = dict.fromkeys(nr)
            wrote_keys = nk
            # next values
            nxt = {}
            for p in phis:
                vs = []
                for (fr, to, ec, em) in back:
                    for (pp, o) in p['o']:
                        if pp == fr:
                            vs.append((ec, self.opnd(o)))
                nxt[p['id']] = self.gate(vs, g.or_([x[0] for x in vs])) if vs else init[p['id']]
            newsolved = False
            if not changed:
                for p in phis:
                    pid = p['id']
                    if pid in solved or isinstance(cur[pid], tuple) or isinstance(nxt[pid], tuple):
                        continue
                    if p['t'] in ('float', 'double') or p['t'].startswith('<'):
                        continue
                    step = g.sub(nxt[pid], cur[pid])
                    if self.invariant(step, lid, h):
                        solved[pid] = step
                        nv = g.add(init[pid], g.mul(k, step))
                        r = g.rootof(init[pid])
                        if p['t'] == 'ptr' and r in g.root:
                            g.root.setdefault(nv, r)
                        cur[pid] = nv
                        newsolved = True
                    elif self.invariant(nxt[pid], lid, h):
                        # wrap-around variable: initial value once, then a loop-invariant value
                        solved[pid] = None
                        cur[pid] = g.ite(g.le0(k), init[pid], nxt[pid])
                        newsolved = True
                    elif g.nodes[nxt[pid]][0] == 'ite':
                        # idempotent conditional update  v = C ? v : A  with invariant C, A
                        cc, aa, bb = g.nodes[nxt[pid]][2]
                        if self.invariant(cc, lid, h) and (aa == cur[pid] and self.invariant(bb, lid, h) or bb == cur[pid] and self.invariant(aa, lid, h)):
                            one = g.subst(nxt[pid], {cur[pid]: init[pid]})
                            solved[pid] = None
                            cur[pid] = g.ite(g.le0(k), init[pid], one)
                            newsolved = True
            if not changed and not newsolved:
                break
            if npass > 8:
                break
        lp = Loop()
        lp.id = lid
        lp.k = k
        lp.header = h
        lp.ins = f.blocks[h][-1]
        lp.cond = cond
        lp.effects = effects
        lp.exits = exits
        for p in phis:
            lp.phis[p['id']] = (cur[p['id']], init[p['id']], nxt[p['id']], p)
        lp.solved = solved
        lp.wroots = set(wrote_roots)
        lp.wkeys = set(wrote_keys)
        self.loops[lid] = lp
        # trip count
        lp.trips = None
        exblocks = {}
        for (fr, to, ec, em) in exits:
            exblocks.setdefault(fr, []).append((to, ec, em))
        outs = []
        if len(exblocks) == 1:
            (E, lst), = exblocks.items()
            inner = f.loop_of[E] != h
            ec = g.or_([x[1] for x in lst])
            cE = conds.get(E, None)
            latchlike = all(fr == E for (fr, _, _, _) in back) and E != h
            if not inner and cE == g.TRUE:
                lp.cont = g.nt(ec)
                lp.form = 'while' if E == h else ('do' if latchlike else 'mid')
                lp.trips = self.trip(lp.cont, k, lid, h)
                if lp.trips is None and lp.cont != g.TRUE and g.nodes[lp.cont][0] in ('and', 'or', 'not', 'le0', 'eq0', 'ite') and self.invariant(g.subst(lp.cont, {k: g.c(982451653)}), lid, h):
                    # no closed form, but the test depends on the iteration number only
                    kb = g.mk('k', ('count', lid))
                    lp.trips = g.mk('count', None, (g.subst(lp.cont, {k: kb}), kb))
                if lp.trips is not None and lp.form == 'do':
                    lp.trips = g.add(lp.trips, g.c(1))
                if E == h and len(back) and all(fr == h for (fr, _, _, _) in back):
                    # single block loop: tested after the body
                    lp.form = 'do'
                    if lp.trips is not None:
                        lp.trips = g.add(lp.trips, g.c(1))
        # a loop whose continuation test holds for the initial values and fails after one pass
        lp.single = None
        if lp.trips is None and lp.cont is not None and lp.form == 'while':
            un = [p for p in lp.phis if p not in solved]
            if not any(isinstance(lp.phis[p][0], tuple) for p in un):
                s0 = {lp.phis[p][0]: lp.phis[p][1] for p in un}
                s0[k] = g.c(0)
                if g.subst(lp.cont, s0) == g.TRUE:
                    s1 = {lp.phis[p][0]: g.subst(lp.phis[p][2], s0) for p in un}
                    s1[k] = g.c(1)
                    if g.subst(lp.cont, s1) == g.nt(g.TRUE):
                        lp.trips = g.c(1)
                        lp.single = {lp.phis[p][0]: lp.phis[p][1] for p in un}
        # exit values
        env = {}
        if lp.single is not None:
            env.update(s1)
        if lp.trips is not None:
            # value of k when leaving: while -> trips ; do -> trips-1
            kx = lp.trips if lp.form == 'while' else (g.sub(lp.trips, g.c(1)))
            if lp.form == 'mid':
                kx = lp.trips
            env[k] = kx
        else:
            env[k] = g.mk('exitv', (lid, 'k'))
        for pid, (c0, i0, n0, p) in lp.phis.items():
            if pid in solved or lp.single is not None:
                continue
            cs = c0 if isinstance(c0, tuple) else (c0,)
            is_ = i0 if isinstance(i0, tuple) else (i0,)
            ns = n0 if isinstance(n0, tuple) else (n0,)
            for j, (a, b, n) in enumerate(zip(cs, is_, ns)):
                nn = g.mk('mux', (lid, pid, j))
                if p['t'] == 'ptr':
                    g.root[nn] = g.root.get(a, nn)
                # reduction: next = mu + e
                op, pl, ar = g.nodes[n]
                if op == 'fadd' and a in ar and lp.trips is not None:
                    e = ar[1] if ar[0] == a else ar[0]
                    if a not in g.deps(e):
                        nn = g.mk('fadd', None, (b, g.mk('sum', lid, (e, lp.trips))))
                env[a] = nn
        memo = {}
        body_val = self.val
        self.val = outer_val
        lp.exit_env = env
        loopblocks = f.loops[h]

        def ex(v):
            if isinstance(v, tuple):
                return tuple(ex(x) for x in v)
            return g.subst(v, env, memo)
        for b in loopblocks:
            for i in f.blocks[b]:
                v = body_val.get(i['id'])
                if v is not None:
                    # only needed if used outside: LCSSA phis read them
                    self.val[i['id']] = None
        self._lazy = getattr(self, '_lazy', {})
        needed = set()
        for (fr, to, ec, em) in exits:
            for i in f.blocks[to]:
                if i['op'] != 'phi':
                    break
                for pp, o in i['o']:
                    if pp == fr and o[0] == 'i' and f.blk_of.get(o[1]) in loopblocks:
                        needed.add(o[1])
        # plus any direct uses (no LCSSA phi)
        for b in f.rpo:
            if b in loopblocks:
                continue
            for i in f.blocks[b]:
                for o in self.operands(i):
                    if o[0] == 'i' and f.blk_of.get(o[1]) in loopblocks:
                        needed.add(o[1])
        for b in loopblocks:
            for i in f.blocks[b]:
                self.val.pop(i['id'], None)
        for iid in needed:
            if iid in body_val and body_val[iid] is not None:
                self.val[iid] = ex(body_val[iid])
        # memory after the loop
        for (fr, to, ec, em) in exits:
            m2 = Mem(mem)
            tag = ('X', lid)
            for r in wrote_roots:
                m2.dirty[r] = tag
            for a in wrote_keys:
                m2.kdirty[a] = tag
            m2.d = {a: v for a, v in m2.d.items() if a not in wrote_keys and g.rootof(a) not in wrote_roots}
            if len(exits) == 1 or lp.trips is not None:
                e2 = cond if len(exits) == 1 else g.and_([cond, ex(ec)])
            else:
                e2 = g.and_([cond, g.mk('exitvia', (lid, fr, to))]) if len(exits) > 1 else cond
            outs.append((fr, to, e2, m2))
        # exactly two opaque exits: make them complementary
        if len(outs) == 2 and len(exits) == 2 and lp.trips is None:
            q = g.mk('exitvia', (lid, outs[0][0], outs[0][1]))
            outs = [(outs[0][0], outs[0][1], g.and_([cond, q]), outs[0][3]), (outs[1][0], outs[1][1], g.and_([cond, g.nt(q)]), outs[1][3])]
        return lp, outs

    def operands(self, i):
        if i['op'] == 'phi':
            for pp, o in i['o']:
                yield o
        else:
            for o in i.get('o', []):
                yield o
            for v in i.get('var', []):
                yield v[0]
            if 'callee' in i:
                yield i['callee']

    def collect_writes(self, effects, nr, nk):
        g = self.g
        for e in effects:
            if e.kind == 'store':
                if self.constoff(e.addr):
                    nk.add(e.addr)
                else:
                    nr.add(g.rootof(e.addr))
            elif e.kind == 'loop':
                nr |= e.loop.wroots
                nk |= e.loop.wkeys
            elif e.kind == 'call' and e.callee in ('memcpy', 'memset'):
                nr.add(g.rootof(e.args[0]))
            elif e.kind == 'call' and e.argmem and e.keep != 'none':
                for r in e.argmem:
                    nr.add(r)

    def invariant(self, n, lid, h):
        g = self.g
        for d in g.deps(n):
            op, pl, ar = g.nodes[d]
            if op in ('k', 'mu', 'mux', 'sum', 'exitv'):
                l = pl[0] if op in ('mu', 'mux', 'exitv') else pl
                if self.inner(l, h):
                    return False
            elif op == 'ld':
                if self.vertag_in(pl, h):
                    return False
            elif op == 'call':
                if pl[1] is not None and self.f.blk_of.get(pl[1]) in self.f.loops[h]:
                    return False
        return True

    def inner(self, lid, h):
        """loop lid is h or nested in h (same function)"""
        if lid[0] != self.tag:
            return False
        for hh, l in self.loopid.items():
            if l == lid:
                x = hh
                while x is not None:
                    if x == h:
                        return True
                    x = self.f.parent[x]
                return False
        return False

    def vertag_in(self, pl, h):
        if not isinstance(pl, tuple):
            return False
        if pl and pl[0] in ('L', 'X'):
            return self.inner(pl[1], h)
        if pl and pl[0] == 'C':
            return self.f.blk_of.get(pl[1]) in self.f.loops[h]
        if pl and pl[0] == 'J':
            s = ' '.join(pl[1])
            return any(str(l) in s for hh, l in self.loopid.items() if self.inner(l, h)) or "('C'" in s
        return any(self.vertag_in(x, h) for x in pl)

    def trip(self, cont, k, lid, h):
        """number of consecutive k=0,1,.. for which cont holds"""
        g = self.g
        op, pl, ar = g.nodes[cont]
        neg = False
        if op == 'not':
            neg = True
            op, pl, ar = g.nodes[ar[0]]
        if op not in ('le0', 'eq0'):
            return None
        p = g.poly(ar[0])
        b = 0
        rest = {}
        for m, c in p.items():
            if k in m:
                if m != (k,):
                    return None
                b = c
            else:
                rest[m] = c
        if not b:
            return None
        a = g.mkpoly(rest)
        if not self.invariant(a, lid, h):
            return None
        if op == 'le0':
            if neg:   # a+bk >= 1  <=> 1-a-bk<=0
                a = g.sub(g.c(1), a)
                b = -b
            if b < 0:
                return None
            # k <= -a/b
            if b == 1:
                return g.add(g.scale(a, -1), g.c(1))
            return g.add(self.idiv(g.scale(a, -1), b), g.c(1))
        if not neg:
            return None
        return self.idiv(g.scale(a, -1), b)

    def idiv(self, a, b):
        g = self.g
        p = g.poly(a)
        if all(c % b == 0 for c in p.values()):
            return g.mkpoly({m: c // b for m, c in p.items()})
        return g.mk('idiv', None, (a, g.c(b)))

    # ------------------------------------------------------------------
    def lanes(self, v, n):
        return v if isinstance(v, tuple) else tuple([v] * n)

    def elem(self, fn, *vs):
        if any(isinstance(v, tuple) for v in vs):
            n = max(len(v) for v in vs if isinstance(v, tuple))
            return tuple(fn(*x) for x in zip(*[self.lanes(v, n) for v in vs]))
        return fn(*vs)

    def store(self, m, c, a, v, sz, ity):
        g = self.g
        m.d[a] = (v, (sz, ity))

    def load(self, m, a, sz, ty):
        g = self.g
        x = m.d.get(a)
        if x is not None:
            v, (s2, t2) = x
            if s2 == sz:
                if t2 in ('float', 'double') and ty in ('i32', 'i64'):
                    return self.bits(v)
                if ty in ('float', 'double') and t2 in ('i32', 'i64'):
                    return self.unbits(v)
                return v
            if s2 < sz and sz == 8:
                y = m.d.get(g.add(a, g.c(4)))
                return g.mk('pair', None, (v, y[0] if y else self.ldnode(m, g.add(a, g.c(4)))))
            return g.mk('part', sz, (v,))
        if sz == 8 and ty in ('i64', 'double'):
            y = m.d.get(g.add(a, g.c(4)))
            if y is not None and y[1][0] == 4:
                return g.mk('pair', None, (self.ldnode(m, a), y[0]))
        if sz == 4:
            # upper half of an 8-byte store
            y = m.d.get(g.sub(a, g.c(4)))
            if y is not None and y[1][0] == 8:
                op, pl, ar = g.nodes[y[0]]
                if op == 'pair':
                    return ar[1]
                return g.mk('hi', None, (y[0],))
        n = self.ldnode(m, a)
        if ty == 'ptr':
            g.ptr(n)
        return n

    def bits(self, v):
        g = self.g
        if isinstance(v, tuple):
            return tuple(self.bits(x) for x in v)
        op, pl, ar = g.nodes[v]
        if op == 'unbits':
            return ar[0]
        if op == 'f' and pl == 0:
            return g.c(0)
        if op == 'ld':
            return v          # reinterpretation of raw memory
        return g.mk('bits', None, (v,))

    def unbits(self, v):
        g = self.g
        if isinstance(v, tuple):
            return tuple(self.unbits(x) for x in v)
        op, pl, ar = g.nodes[v]
        if op == 'bits':
            return ar[0]
        if op == 'ld':
            return v
        if op == 'ite':
            return g.ite(ar[0], self.unbits(ar[1]), self.unbits(ar[2]))
        if g.const(v) == 0:
            return g.mk('f', Fraction(0))
        return g.mk('unbits', None, (v,))

    def b2i(self, v, one=1):
        g = self.g
        return g.ite(v, g.c(one), g.c(0))

    def isbool(self, n):
        return self.g.nodes[n][0] in ('true', 'false', 'and', 'or', 'not', 'le0', 'eq0', 'fcmp', 'exitvia', 'tobool')

    def tobool(self, v):
        g = self.g
        if self.isbool(v):
            return v
        k = g.const(v)
        if k is not None:
            return g.TRUE if k & 1 else g.FALSE
        op, pl, ar = g.nodes[v]
        if op == 'ite':
            a, b = self.tobool(ar[1]), self.tobool(ar[2])
            return g.ite(ar[0], a, b)
        return g.nt(g.eq0(v))

    def instr(self, i, m, c, effects):
        g = self.g
        op = i['op']
        t = i['t']
        V = self.val
        O = lambda j: self.opnd(i['o'][j])
        if op == 'alloca':
            n = g.mk('alloca', (self.tag, i['id'], i.get('nm', '')))
            V[i['id']] = g.ptr(n)
        elif op == 'getelementptr':
            b = O(0)
            if 'off' not in i:
                V[i['id']] = g.mk('gepx', i['id'], (b if not isinstance(b, tuple) else b[0],))
                return
            def mkgep(bb, *idx):
                r = g.rootof(bb)
                n = g.add(bb, g.c(i['off']))
                for ix, (o, s) in zip(idx, i['var']):
                    n = g.add(n, g.scale(ix, s))
                if n not in g.root:
                    g.root[n] = r
                return n
            V[i['id']] = self.elem(mkgep, b, *[self.opnd(o) for o, s in i['var']])
        elif op == 'load':
            a = O(0)
            vt = vecty(t)
            if vt:
                es = scalar_size(vt[1])
                V[i['id']] = tuple(self.load(m, g.add(a, g.c(es * j)), es, vt[1]) for j in range(vt[0]))
            else:
                V[i['id']] = self.load(m, a, i['sz'], t)
                if t == 'i1':
                    V[i['id']] = self.tobool(V[i['id']])
        elif op == 'store':
            v, a = O(0), O(1)
            vt = vecty(i['vt'])
            if vt:
                es = scalar_size(vt[1])
                v = self.lanes(v, vt[0])
                for j in range(vt[0]):
                    aj = g.add(a, g.c(es * j))
                    self.store(m, c, aj, v[j], es, vt[1])
                    effects.append(Effect('store', c, i, addr=aj, val=v[j], sz=es, ity=vt[1], order=self.fresh()))
            else:
                if isinstance(v, tuple):
                    v = v[0] if v else g.ZERO
                self.store(m, c, a, v, i['sz'], i['vt'])
                effects.append(Effect('store', c, i, addr=a, val=v, sz=i['sz'], ity=i['vt'], order=self.fresh()))
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            def mkf(a, b):
                if op in ('fadd', 'fmul') and a > b:
                    a, b = b, a
                return g.mk(op, None, (a, b))
            V[i['id']] = self.elem(mkf, O(0), O(1))
        elif op == 'fneg':
            V[i['id']] = self.elem(lambda a: g.mk('fneg', None, (a,)), O(0))
        elif op == 'add':
            V[i['id']] = self.elem(g.add, O(0), O(1))
        elif op == 'sub':
            V[i['id']] = self.elem(g.sub, O(0), O(1))
        elif op == 'mul':
            V[i['id']] = self.elem(g.mul, O(0), O(1))
        elif op == 'shl':
            def shl(a, b):
                k = g.const(b)
                return g.scale(a, 1 << k) if k is not None and 0 <= k < 63 else g.mk('shl', None, (a, b))
            V[i['id']] = self.elem(shl, O(0), O(1))
        elif op in ('and', 'or', 'xor'):
            x, y = O(0), O(1)
            vt = vecty(t)
            et = vt[1] if vt else t
            if et == 'i1':
                fn = {'and': lambda a, b: g.and_([self.tobool(a), self.tobool(b)]), 'or': lambda a, b: g.or_([self.tobool(a), self.tobool(b)]),
                      'xor': lambda a, b: g.or_([g.and_([self.tobool(a), g.nt(self.tobool(b))]), g.and_([g.nt(self.tobool(a)), self.tobool(b)])])}[op]
            else:
                def fn(a, b):
                    ka, kb = g.const(a), g.const(b)
                    if ka is not None and kb is not None:
                        return g.c({'and': ka & kb, 'or': ka | kb, 'xor': ka ^ kb}[op])
                    if op == 'or' and ka == 0:
                        return b
                    if op in ('or', 'xor') and kb == 0:
                        return a
                    if op == 'and' and 0 in (ka, kb):
                        return g.c(0)
                    if op == 'and' and -1 in (ka, kb):
                        return b if ka == -1 else a
                    # 0/1 integers built from booleans
                    bx, by = self.as01(a), self.as01(b)
                    if bx is not None and by is not None:
                        if op == 'and':
                            return self.b2i(g.and_([bx, by]))
                        if op == 'or':
                            return self.b2i(g.or_([bx, by]))
                    return g.mk('i' + op, None, tuple(sorted((a, b))))
            V[i['id']] = self.elem(fn, x, y)
        elif op in ('lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem', 'frem'):
            def fn(a, b):
                ka, kb = g.const(a), g.const(b)
                if op in ('udiv', 'urem') and (ka is not None and ka < 0 or kb is not None and kb < 0):
                    w = 1 << int(i['t'].strip('<>').split('i')[-1])
                    if ka is not None:
                        ka = ka % w
                        a = g.c(ka)
                    if kb is not None:
                        kb = kb % w
                        b = g.c(kb)
                if ka is not None and kb:
                    if op in ('sdiv', 'udiv'):
                        q = abs(ka) // abs(kb)
                        return g.c(q if (ka < 0) == (kb < 0) else -q)
                    if op in ('srem', 'urem') and ka >= 0 and kb > 0:
                        return g.c(ka % kb)
                if op in ('lshr', 'ashr') and kb is not None and ka is not None and ka >= 0:
                    return g.c(ka >> kb)
                if op in ('sdiv', 'udiv') and kb == 1:
                    return a
                if op in ('sdiv', 'udiv') and kb and all(cc % kb == 0 for cc in g.poly(a).values()):
                    # exact (pointer differences)
                    return g.mkpoly({mm: cc // kb for mm, cc in g.poly(a).items()})
                nm = {'lshr': 'shr', 'ashr': 'shr', 'sdiv': 'idiv', 'udiv': 'idiv', 'srem': 'irem', 'urem': 'irem', 'frem': 'frem'}[op]
                if nm == 'shr' and kb is not None:
                    return g.mk('shr', None, (a, b))
                return g.mk(nm, None, (a, b))
            V[i['id']] = self.elem(fn, O(0), O(1))
        elif op == 'icmp':
            pr = i['pred']
            k = i['o'][1]
            big = pr[0] == 'u' and k[0] == 'c' and isinstance(k[1], int) and 1 << 60 <= k[1] < 1 << 63
            def fn(a, b):
                if self.isbool(a) or self.isbool(b):
                    if i['ot'].endswith('i1') or i['ot'].endswith('i1>'):
                        e = g.or_([g.and_([a, b]), g.and_([g.nt(a), g.nt(b)])])
                        return e if pr == 'eq' else g.nt(e)
                if pr in ('eq', 'ne'):
                    d = g.sub(a, b)
                    z = self.zeroness(d)
                    e = z if z is not None else g.eq0(d)
                    return e if pr == 'eq' else g.nt(e)
                pp = pr[1:]
                if big:
                    # an overflow guard: beyond every size, only a negative number is larger
                    neg = g.le0(g.add(a, g.c(1)))
                    return neg if pp in ('gt', 'ge') else g.nt(neg)
                if pr[0] == 'u' and pp == 'gt' and g.const(b) == 0:
                    z = self.zeroness(a)
                    return g.nt(z if z is not None else g.eq0(a))
                if pp == 'le':
                    return g.le0(g.sub(a, b))
                if pp == 'lt':
                    return g.le0(g.add(g.sub(a, b), g.c(1)))
                if pp == 'ge':
                    return g.le0(g.sub(b, a))
                return g.le0(g.add(g.sub(b, a), g.c(1)))
            V[i['id']] = self.elem(fn, O(0), O(1))
        elif op == 'fcmp':
            pr = i['pred']
            if pr in ('true', 'false'):
                V[i['id']] = g.TRUE if pr == 'true' else g.FALSE
                return
            if pr in ('uno', 'ord'):
                V[i['id']] = self.elem(lambda a, b: g.nt(g.mk('fcmp', 'uno', (a, b))) if pr == 'ord' else g.mk('fcmp', 'uno', (a, b)), O(0), O(1))
                return
            pp = pr[1:]
            def fn(a, b):
                q = pp
                if q in ('gt', 'ge'):
                    a, b = b, a
                    q = {'gt': 'lt', 'ge': 'le'}[q]
                if q == 'le':
                    return g.nt(g.mk('fcmp', 'lt', (b, a)))
                if q == 'lt':
                    return g.mk('fcmp', 'lt', (a, b))
                a, b = min(a, b), max(a, b)
                e = g.mk('fcmp', 'eq', (a, b))
                return e if q == 'eq' else g.nt(e)
            V[i['id']] = self.elem(fn, O(0), O(1))
        elif op == 'select':
            cv = O(0)
            V[i['id']] = self.elem(lambda cc, a, b: g.ite(self.tobool(cc), a, b), cv, O(1), O(2))
        elif op in ('sext', 'zext'):
            v = O(0)
            ot = i['ot']
            if ot == 'i1' or ot.endswith('x i1>'):
                V[i['id']] = self.elem(lambda a: self.b2i(self.tobool(a), -1 if op == 'sext' else 1), v)
            elif op == 'zext' and ot in ('i8', 'i16'):
                # a narrowed value read as unsigned
                V[i['id']] = self.elem(lambda a: g.mk('zx', int(ot[1:]), (a,)) if g.nodes[a][0] == 'trunc' else a, v)
            else:
                V[i['id']] = v
        elif op == 'trunc':
            v = O(0)
            et = vecty(t)[1] if vecty(t) else t
            if et == 'i1':
                V[i['id']] = self.elem(self.tobool, v)
            elif et in ('i8', 'i16'):
                def tr(a):
                    k = g.const(a)
                    if k is not None:
                        return a
                    if self.as01(a) is not None:
                        return a
                    return g.mk('trunc', et, (a,))
                V[i['id']] = self.elem(tr, v)
            else:
                def tr32(a):
                    o2, p2, a2 = g.nodes[a]
                    if o2 == 'pair':
                        return a2[0]
                    return a
                V[i['id']] = self.elem(tr32, v)
        elif op in ('fpext', 'fptrunc', 'sitofp', 'uitofp', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'):
            v = O(0)
            if op in ('sitofp', 'uitofp'):
                def itf(a):
                    k = g.const(a)
                    return g.mk('f', Fraction(k)) if k is not None else a
                v = self.elem(itf, v)
            V[i['id']] = v
        elif op in ('fptosi', 'fptoui'):
            def ft(a):
                if g.nodes[a][0] == 'f':
                    return g.c(int(g.nodes[a][1]))
                r = g.mk('ftoi', None, (a,))
                return g.mk('trunc', t, (r,)) if t in ('i8', 'i16') else r
            V[i['id']] = self.elem(ft, O(0))
        elif op == 'bitcast':
            V[i['id']] = self.bitcast(O(0), i['ot'], t)
        elif op == 'extractelement':
            v, ix = O(0), g.const(O(1))
            if isinstance(v, tuple) and ix is not None and ix < len(v):
                V[i['id']] = v[ix]
            else:
                V[i['id']] = g.mk('opaque', (self.tag, i['id']))
        elif op == 'insertelement':
            v, x, ix = O(0), O(1), g.const(O(2))
            n = vecty(t)[0]
            v = list(self.lanes(v, n))
            if ix is not None:
                v[ix] = x
            V[i['id']] = tuple(v)
        elif op == 'shufflevector':
            a, b = O(0), O(1)
            n = vecty(t)[0]
            mask = i['mask']
            na = len(a) if isinstance(a, tuple) else n
            b = self.lanes(b, na)
            a = self.lanes(a, na)
            ab = a + b
            V[i['id']] = tuple(ab[x] if x >= 0 else g.mk('undef') for x in mask)
        elif op in ('extractvalue',):
            v = O(0)
            for ix in i['idx']:
                v = v[ix] if isinstance(v, tuple) and ix < len(v) else g.mk('xv', ix, (v,)) if not isinstance(v, tuple) else g.mk('undef')
            V[i['id']] = v
        elif op == 'insertvalue':
            v, x = O(0), O(1)
            n = max(i['idx'][0] + 1, len(v) if isinstance(v, tuple) else 0)
            l = list(v) if isinstance(v, tuple) else []
            while len(l) < n:
                l.append(g.mk('undef'))
            l[i['idx'][0]] = x
            V[i['id']] = tuple(l)
        elif op in ('call', 'invoke'):
            self.call(i, m, c, effects)
        elif op in ('br', 'ret', 'switch', 'unreachable', 'resume'):
            pass
        elif op == 'fence':
            effects.append(Effect('fence', c, i, order=self.fresh()))
        else:
            n = g.mk('opaque', (self.tag, i['id'], op))
            V[i['id']] = n

    def as01(self, n):
        """boolean b when n is ite(b,1,0)"""
        g = self.g
        k = g.const(n)
        if k in (0, 1):
            return g.TRUE if k else g.FALSE
        op, pl, ar = g.nodes[n]
        if op == 'ite' and g.const(ar[1]) == 1 and g.const(ar[2]) == 0:
            return ar[0]
        if op == 'ite' and g.const(ar[1]) == 0 and g.const(ar[2]) == 1:
            return g.nt(ar[0])
        return None

    def zeroness(self, n):
        """boolean for n==0 when n is a gate over constants"""
        g = self.g
        k = g.const(n)
        if k is not None:
            return g.TRUE if k == 0 else g.FALSE
        op, pl, ar = g.nodes[n]
        if op == 'ite':
            a, b = self.zeroness(ar[1]), self.zeroness(ar[2])
            if a is not None and b is not None:
                return g.ite(ar[0], a, b)
        return None

    def bitcast(self, v, ft, tt):
        fv, tv = vecty(ft), vecty(tt)
        fe = fv[1] if fv else ft
        te = tv[1] if tv else tt
        isf = lambda e: e in ('float', 'double')
        if (fv[0] if fv else 1) == (tv[0] if tv else 1):
            if isf(fe) and not isf(te):
                return self.bits(v)
            if isf(te) and not isf(fe):
                return self.unbits(v)
            return v
        # reshaping bitcasts: represent raw lanes (4-byte units)
        fs, ts = scalar_size(fe), scalar_size(te)
        if fe == 'i1' and not tv:
            # <n x i1> -> iN : movemask
            g = self.g
            out = g.c(0)
            for j, b in enumerate(v):
                out = g.add(out, g.scale(self.b2i(self.tobool(b)), 1 << j))
            return out
        g = self.g
        lanes = list(v) if isinstance(v, tuple) else [v]
        raw = self.bits(tuple(lanes)) if isf(fe) else tuple(lanes)
        if fs == 4 and ts == 8 and len(raw) % 2 == 0:
            out = []
            for j in range(0, len(raw), 2):
                if g.const(raw[j]) == 0 and g.const(raw[j + 1]) == 0:
                    out.append(g.c(0))
                elif g.const(raw[j]) == -1 and g.const(raw[j + 1]) == -1:
                    out.append(g.c(-1))
                else:
                    out.append(g.mk('pair', None, (raw[j], raw[j + 1])))
            r = tuple(out)
        elif fs == 8 and ts == 4:
            out = []
            for x in raw:
                out.extend(self.unpair(x))
            r = tuple(out)
        else:
            return tuple(g.mk('opaque', (self.tag, 'bc', ft, tt, j), tuple(lanes)) for j in range(tv[0])) if tv else g.mk('opaque', (self.tag, 'bc', ft, tt), tuple(lanes))
        if isf(te):
            r = self.unbits(r)
        return r if tv else r[0]

    def unpair(self, x):
        g = self.g
        k = g.const(x)
        if k in (0, -1):
            return [g.c(k), g.c(k)]
        if k is not None:
            lo = k & 0xffffffff
            hi = (k >> 32) & 0xffffffff
            s = lambda q: q - (1 << 32) if q >= (1 << 31) else q
            return [g.c(s(lo)), g.c(s(hi))]
        op, pl, ar = g.nodes[x]
        if op == 'pair':
            return list(ar)
        if op in ('iand', 'ior', 'ixor'):
            a, b = self.unpair(ar[0]), self.unpair(ar[1])
            return [self.ibit(op, p, q) for p, q in zip(a, b)]
        if op == 'ite':
            a, b = self.unpair(ar[1]), self.unpair(ar[2])
            return [g.ite(ar[0], p, q) for p, q in zip(a, b)]
        if op == 'poly':
            # -1 - x  (xor with all ones was folded?) not produced here
            pass
        return [g.mk('lo', None, (x,)), g.mk('hi', None, (x,))]

    def ibit(self, op, a, b):
        g = self.g
        ka, kb = g.const(a), g.const(b)
        if op == 'iand':
            if 0 in (ka, kb):
                return g.c(0)
            if ka == -1:
                return b
            if kb == -1:
                return a
        if op in ('ior', 'ixor'):
            if ka == 0:
                return b
            if kb == 0:
                return a
        return g.mk(op, None, tuple(sorted((a, b))))

    INTR1 = {'llvm.sqrt': 'sqrt', 'sqrt': 'sqrt', 'sqrtf': 'sqrt', 'llvm.fabs': 'fabs', 'fabs': 'fabs', 'fabsf': 'fabs'}

    def call(self, i, m, c, effects):
        g = self.g
        V = self.val
        nm = i['callee'][1] if i['callee'][0] == 'fn' else None
        base = nm or ''
        if base.startswith('llvm.'):
            base = '.'.join(base.split('.')[:2])
        args = [self.opnd(o) if o[0] != 'md' else None for o in i['o']]
        if base in self.INTR1:
            V[i['id']] = self.elem(lambda a: g.mk(self.INTR1[base], None, (a,)), args[0])
            return
        if base in ('llvm.fmuladd', 'llvm.fma'):
            V[i['id']] = self.elem(lambda a, b, d: g.mk('fadd', None, tuple(sorted((g.mk('fmul', None, tuple(sorted((a, b)))), d)))), *args)
            return
        if base in ('llvm.copysign', 'copysignf', 'copysign'):
            V[i['id']] = self.elem(lambda a, b: g.mk('copysign', None, (a, b)), *args)
            return
        if base in ('llvm.smax', 'llvm.smin', 'llvm.umax', 'llvm.umin'):
            def mm(a, b):
                le = g.le0(g.sub(a, b))
                return g.ite(le, b, a) if base.endswith('max') else g.ite(le, a, b)
            V[i['id']] = self.elem(mm, *args)
            return
        if '.with.overflow' in (nm or ''):
            # sizes here never reach the width of the type; a negative size counts as overflow of the unsigned product
            a, b = args[:2]
            k = nm.split('.')[1]
            v = {'mul': g.mul, 'add': g.add, 'sub': g.sub}[k[1:]](a, b)
            V[i['id']] = (v, g.le0(g.add(v, g.c(1))) if k[0] == 'u' else g.FALSE)
            return
        if base == 'llvm.abs':
            V[i['id']] = self.elem(lambda a: g.ite(g.le0(a), g.scale(a, -1), a), args[0])
            return
        if base in ('llvm.assume', 'llvm.dbg', 'llvm.prefetch', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.lifetime', 'llvm.experimental', 'llvm.expect', 'llvm.invariant'):
            V[i['id']] = args[0] if base == 'llvm.expect' else g.mk('opaque', (self.tag, i['id']))
            return
        if nm and nm.startswith('llvm.x86.sse.cmp.ps'):
            V[i['id']] = self.ssecmp(args)
            return
        if nm and (nm.startswith('llvm.x86.avx.cmp.ps')):
            V[i['id']] = self.ssecmp(args)
            return
        if nm in ('llvm.x86.sse.rsqrt.ps', 'llvm.x86.avx.rsqrt.ps.256'):
            V[i['id']] = self.elem(lambda a: g.mk('rcp', None, (g.mk('sqrt', None, (a,)),)), args[0])
            return
        if nm and nm.startswith(('llvm.x86.avx512.permvar.', 'llvm.x86.avx2.permps')) and all(g.const(x) is not None for x in args[1]):
            V[i['id']] = tuple(args[0][g.const(x) % len(args[0])] for x in args[1])
            return
        if nm and nm.startswith('llvm.x86.avx512.vpermi2var.') and all(g.const(x) is not None for x in args[1]):
            ab = tuple(args[0]) + tuple(args[2])
            V[i['id']] = tuple(ab[g.const(x) % len(ab)] for x in args[1])
            return
        if nm in ('llvm.x86.avx512.rsqrt14.ps.512', 'llvm.x86.avx512.rcp14.ps.512') and g.const(args[2]) == -1:
            V[i['id']] = self.elem((lambda a: g.mk('rcp', None, (g.mk('sqrt', None, (a,)),))) if 'rsqrt' in nm else (lambda a: g.mk('rcp', None, (a,))), args[0])
            return
        if nm in ('llvm.x86.sse.rcp.ps', 'llvm.x86.avx.rcp.ps.256'):
            V[i['id']] = self.elem(lambda a: g.mk('rcp', None, (a,)), args[0])
            return
        if nm and nm.startswith('llvm.x86.sse2.cvtps2dq') or nm and nm.startswith('llvm.x86.avx.cvt.ps2dq'):
            V[i['id']] = self.elem(lambda a: g.mk('ftoi_r', None, (a,)), args[0])
            return
        if nm and 'movmsk' in nm:
            V[i['id']] = g.mk('movmsk', None, tuple(args[0]))
            return
        if base == 'llvm.memcpy' or base == 'llvm.memmove' or nm in ('memcpy', 'memmove'):
            n = g.const(args[2])
            if n is not None and n <= 4096 and n % 4 == 0:
                step = 4
                vals = []
                off = 0
                while off < n:
                    sa = g.add(args[1], g.c(off))
                    x = m.d.get(sa)
                    if x is not None:
                        sz, ty = x[1]
                        vals.append((off, x[0], sz, ty))
                        off += sz
                    else:
                        vals.append((off, self.ldnode(m, sa), 4, 'i32'))
                        off += 4
                for off, v, sz, ty in vals:
                    da = g.add(args[0], g.c(off))
                    self.store(m, c, da, v, sz, ty)
                    effects.append(Effect('store', c, i, addr=da, val=v, sz=sz, ity=ty, order=self.fresh()))
                return
            nm = 'memcpy'
        if base == 'llvm.memset' or nm == 'memset':
            n = g.const(args[2])
            if n is not None and n <= 4096 and n % 4 == 0 and g.const(args[1]) == 0:
                for off in range(0, n, 4):
                    da = g.add(args[0], g.c(off))
                    self.store(m, c, da, g.mk('f', Fraction(0)), 4, 'float')
                    effects.append(Effect('store', c, i, addr=da, val=g.mk('f', Fraction(0)), sz=4, ity='float', order=self.fresh()))
                return
            nm = 'memset'
        flat = []
        for a in args:
            if a is None:
                continue
            if isinstance(a, tuple):
                flat.extend(a)
            else:
                flat.append(a)
        cn = nm if nm else self.opnd(i['callee'])
        blk = nm in ('memcpy', 'memset')
        pure = (base.startswith('llvm.') and not blk) or nm in ('cos', 'sin', 'cosf', 'sinf', 'exp', 'log', 'pow', 'powf', 'tan', 'tanf', 'floor', 'ceil')
        vt = vecty(i['t'])
        if pure:
            if vt:
                res = tuple(g.mk('uf', (nm, j), tuple(flat)) for j in range(vt[0]))
            else:
                res = g.mk('uf', nm, tuple(flat))
            V[i['id']] = res
            return
        extra = (cn,) if not nm else ()
        res = g.mk('call', (nm, i['id'], self.tag), tuple(flat) + extra)
        if i['t'] == 'ptr':
            g.ptr(res)
        e = Effect('call', c, i, callee=nm if nm else ('ind', cn), args=args, res=res, order=self.fresh())
        # memory contents reachable through alloca arguments
        am = {}
        for a in flat:
            r = g.rootof(a)
            if g.nodes[r][0] == 'alloca':
                am[r] = {g.sub(k, r): v[0] for k, v in m.d.items() if g.rootof(k) == r}
        e.argmem = am
        effects.append(e)
        cl = self.clobber(nm, e) if not blk else None
        if blk:
            e.argmem = {r: v for r, v in am.items() if r == g.rootof(args[0])}
            cl = {g.rootof(args[0])}
            am = {}
        if cl is None:
            cl = False
        tag = ('C', i['id'])
        e.keep = cl if isinstance(cl, str) else None
        if cl == 'none' or cl == 'keep':
            roots = set()
        else:
            roots = set(am) if cl is not True else None
        if isinstance(cl, (set, list, frozenset)):
            roots |= set(cl)
        if cl == 'none':
            return self._res(i, vt, res)
        if cl == 'keep':
            # contents known so far survive, anything else may have been written
            for r in am:
                m.dirty[r] = tag
            return self._res(i, vt, res)
        if roots is None:
            m.d = {a: v for a, v in m.d.items() if g.nodes[g.rootof(a)][0] == 'alloca' and g.rootof(a) not in am}
            for r in set(g.rootof(a) for a in list(m.kdirty)):
                m.dirty[r] = tag
            m.dirty['*'] = tag
        else:
            for r in roots:
                m.d = {a: v for a, v in m.d.items() if g.rootof(a) != r}
                m.dirty[r] = tag
        self._res(i, vt, res)

    def _res(self, i, vt, res):
        g, V = self.g, self.val
        if vt:
            V[i['id']] = tuple(g.mk('xv', j, (res,)) for j in range(vt[0]))
        elif i['t'] == 'i1':
            V[i['id']] = g.mk('tobool', None, (res,))
        else:
            V[i['id']] = res

    def ssecmp(self, args):
        g = self.g
        k = g.const(args[2]) & 7
        def fn(a, b):
            lt = lambda x, y: g.mk('fcmp', 'lt', (x, y))
            eq = lambda x, y: g.mk('fcmp', 'eq', (min(x, y), max(x, y)))
            r = {0: eq(a, b), 1: lt(a, b), 2: g.nt(lt(b, a)), 4: g.nt(eq(a, b)), 5: g.nt(lt(a, b)), 6: lt(b, a)}[k]
            return self.unbits(g.ite(r, g.c(-1), g.c(0)))
        return self.elem(fn, args[0], args[1])


def walk(effects, loops=()):
    """flatten effects: yields (effect, enclosing loops)"""
    for e in effects:
        if e.kind == 'loop':
            yield from walk(e.loop.effects, loops + (e.loop,))
        else:
            yield e, loops
