"""Bit-precise dataflow over the generator sources: every value is a constant, a vector of GF(2)-affine forms of the generator's state bits, an affine
combination of such bits (integer or floating), or a pointer.  Branches on such values fork; nothing else is approximated."""
import re
from fractions import Fraction
import proj, ir

ONE = 1                       # bit 0 of a form is the constant one; bit k+1 is input bit k


class Undecided(Exception):
    pass


class Err(Exception):
    pass


class Cut(Exception):
    pass


class Limit(Undecided):
    pass


def width(t):
    if t[0] == 'i':
        return int(t[1:])
    if t == 'float':
        return 32
    if t == 'double':
        return 64
    m = re.match(r'<(\d+) x (\w+)>', t)
    if m:
        return int(m.group(1)) * width(m.group(2))
    if t == 'ptr':
        return 64
    raise Undecided('type ' + t)


def elem(t):
    m = re.match(r'<(\d+) x (\w+)>', t)
    return width(m.group(2)) if m else width(t)


def _ord(kv):
    return (0, kv[0], 0) if isinstance(kv[0], int) else (1, 0, hash(kv[0]))


def _kord(k):
    return hash(k)


class BV:
    __slots__ = ('b',)

    def __init__(self, bits):
        self.b = tuple(bits)


class Lin:
    """const + sum coef*key; key = form (an int, constant part removed) or an atom tuple.  w: modulus width for integers, None for reals"""
    __slots__ = ('c', 'd', 'w', 'ex')

    def __init__(self, c, d, w, ex=True):
        self.c = c
        self.d = d
        self.w = w
        self.ex = ex

    def key(self):
        return ('lin', self.c, tuple(sorted(self.d.items(), key=_ord)), self.w)

    def rng(self):
        lo = hi = self.c
        for k, v in self.d.items():
            if isinstance(k, tuple):
                return None
            if v < 0:
                lo += v
            else:
                hi += v
        return lo, hi


class Rat:
    """floating constant"""


def bits_of(v, w):
    if isinstance(v, int):
        return tuple((v >> i) & 1 for i in range(w))
    if isinstance(v, BV):
        if len(v.b) != w:
            raise Undecided(f'width {len(v.b)} used as {w}')
        return v.b
    raise Undecided(f'bits of {type(v).__name__}')


def mk(bits):
    if all(x <= 1 for x in bits):
        r = 0
        for i, x in enumerate(bits):
            r |= x << i
        return r
    return BV(bits)


class Interp:
    def __init__(self, mod, oracle=None, limit=3000000):
        self.mod = mod
        self.mem = {}             # (obj, byte) -> form list of 8, or ('w', value, size) at the first byte
        self.fresh = {}
        self.nin = 0
        self.names = {}
        self.oracle = oracle or Oracle()
        self.steps = 0
        self.limit = limit
        self.nobj = 0
        self.freed = []
        self.calls = []
        self.stub = {}
        self.iv = {}              # bits -> (lo, hi) of a draw on this path
        self.lin = []             # GF(2) constraints (forms equal to 0) on this path, reduced
        self.touched = set()
        self.conds = []
        self.wrap = False
        self.ndraw = 0
        self.budget = None
        self.noff = -1

    # -- inputs -----------------------------------------------------------
    def inp(self, n, name):
        r = [1 << (self.nin + i + 1) for i in range(n)]
        self.names[self.nin] = (name, n)
        self.nin += n
        return r

    def fb(self, key, w):
        if key not in self.fresh:
            self.fresh[key] = tuple(self.inp(w, key[0]))
        return self.fresh[key]

    def obj(self, name):
        self.nobj += 1
        return ('p', f'{name}', 0)

    # -- memory -----------------------------------------------------------
    def store(self, p, v, n):
        if not (isinstance(p, tuple) and p[0] == 'p'):
            raise Undecided('store through unknown address')
        o, a = p[1], p[2]
        if o == 'rng' and a == self.noff:
            self.ndraw += 1
            if self.budget is not None and self.ndraw > self.budget:
                raise Cut()
        for k in range(n):
            self.mem.pop((o, a + k), None)
        self.touched.update((o, a + k) for k in range(n))
        for k in range(1, 9):
            e = self.mem.get((o, a - k))
            if isinstance(e, tuple) and e[0] == 'w' and e[2] > k:
                del self.mem[(o, a - k)]
        if isinstance(v, Lin) and v.w is not None:
            v = self.tobits(v, n * 8)
        if isinstance(v, (int, BV)):
            if isinstance(v, bool):
                v = int(v)
            b = bits_of(v, n * 8) if isinstance(v, int) else v.b + (0,) * (n * 8 - len(v.b))
            for k in range(n):
                self.mem[(o, a + k)] = list(b[8 * k:8 * k + 8])
        else:
            self.mem[(o, a)] = ('w', v, n)

    def load(self, p, n, t):
        if not (isinstance(p, tuple) and p[0] == 'p'):
            raise Undecided('load through unknown address')
        o, a = p[1], p[2]
        e = self.mem.get((o, a))
        if e is None:
            g = self.mod.globals.get(o)
            if g is not None and g.get('init') is not None and a >= 0:
                return self.ginit(g['init'], a, n, t)
            raise Undecided(f'load of unwritten {o}+{a}')
        if isinstance(e, tuple):
            if e[2] != n:
                raise Undecided(f'partial load of {o}+{a}')
            return e[1]
        b = []
        for k in range(n):
            e = self.mem.get((o, a + k))
            if not isinstance(e, list):
                raise Undecided(f'load of unwritten {o}+{a + k}')
            b += e
        return mk(b)

    def ginit(self, x, a, n, t):
        if x[0] == 'zero':
            return 0 if t[0] in 'i<' else Fraction(0)
        if x[0] == 'data' or x[0] == 'agg' or x[0] == 'arr':
            seq = x[2]
            if seq and isinstance(seq, list):
                sz = (seq[0][2] // 8) if seq[0][0] == 'c' else (4 if seq[0][-1] == 'float' else 8)
                if sz == n and a % n == 0 and a // n < len(seq):
                    return self.const(seq[a // n])
                if n % sz == 0 and seq[0][0] == 'c' and (a + n) // sz <= len(seq):
                    r = 0
                    for k in range(n // sz):
                        r |= (seq[a // sz + k][1] & ((1 << 8 * sz) - 1)) << (8 * sz * k)
                    return r
            raise Undecided('constant table index')
        if x[0] in 'cf':
            return self.const(x)
        raise Undecided('initialiser ' + str(x[0]))

    def const(self, o):
        if o[0] == 'c':
            return o[1] & ((1 << o[2]) - 1)
        if o[0] == 'f':
            return Fraction(float.fromhex(o[1])) if 'x' in str(o[1]) else Fraction(float(o[1]))
        raise Undecided('constant ' + str(o[0]))

    # -- conversions -------------------------------------------------------
    def tolin(self, v, w):
        if isinstance(v, Lin):
            return v
        if isinstance(v, int):
            return Lin(v, {}, w)
        c, d = 0, {}
        for i, m in enumerate(v.b):
            if m & 1:
                c += 1 << i
                if m ^ 1:
                    d[m ^ 1] = d.get(m ^ 1, 0) - (1 << i)
            elif m:
                d[m] = d.get(m, 0) + (1 << i)
        return self.norm(Lin(c, d, w))

    def norm(self, L):
        if L.w is None:
            return Lin(L.c, {k: v for k, v in L.d.items() if v}, None, L.ex)
        M = 1 << L.w
        return Lin(L.c % M, {k: v % M for k, v in L.d.items() if v % M}, L.w)

    def tobits(self, v, w):
        """bits of an integer combination"""
        if isinstance(v, (int, BV)):
            return v
        if v.w != w:
            raise Undecided('width of integer combination')
        if not v.d:
            return v.c
        b = [(v.c >> i) & 1 for i in range(w)]
        ok = True
        used = set(i for i in range(w) if b[i])
        for k, c in v.d.items():
            if c & (c - 1) or c.bit_length() - 1 in used or isinstance(k, tuple):
                ok = False
                break
            used.add(c.bit_length() - 1)
            b[c.bit_length() - 1] = k
        if ok:
            return mk(b)
        # carry-free low bits are not separated: an opaque value determined by the combination
        return BV(self.fb(v.key(), w))

    def ints(self, v, w):
        return v if isinstance(v, (int, BV)) else self.tobits(v, w)

    # -- forks -------------------------------------------------------------
    def decide(self, m):
        """truth of the one-bit form m"""
        m = self.reduce(m)
        if m <= 1:
            return m
        r = self.oracle.choose(2)
        self.assume(m ^ r)
        return r

    def reduce(self, m):
        for p, f in self.lin:
            if (m >> p) & 1:
                m ^= f
        return m

    def assume(self, f):
        f = self.reduce(f)
        if f == 0:
            return
        if f == 1:
            raise Undecided('contradiction')
        p = f.bit_length() - 1
        self.lin = [(q, g ^ f if (g >> p) & 1 else g) for q, g in self.lin]
        self.lin.append((p, f))

    def interval(self, v):
        b = v.b
        n = len(b)
        if b in self.iv:
            return self.iv[b]
        d = [x for x in b if x > 1]
        if len(set(d)) != len(d):
            raise Undecided('comparison of a dependent value')
        lo = sum((x & 1) << i for i, x in enumerate(b) if x <= 1)
        # contiguous free bits only
        free = [i for i, x in enumerate(b) if x > 1]
        if free != list(range(free[0], free[-1] + 1)) or free[0] != 0 or lo:
            raise Undecided('comparison of a shifted value')
        self.iv[b] = (0, (1 << len(free)) - 1)
        return self.iv[b]

    def pick(self, v):
        """a value with few free bits, by cases"""
        if isinstance(v, int):
            return v
        if isinstance(v, Lin) and v.w:
            if len(v.d) > 10 or any(isinstance(k, tuple) for k in v.d):
                raise Undecided('index depends on the state')
            return (v.c + sum(c * self.decide(k) for k, c in v.d.items())) % (1 << v.w)
        if len(set(v.b) - {0, 1}) > 10:
            raise Undecided('index depends on the state')
        return sum(self.decide(m) << i for i, m in enumerate(v.b))

    def split(self, v, cut):
        """is v < cut?"""
        lo, hi = self.interval(v)
        if hi < cut:
            return 1
        if lo >= cut:
            return 0
        r = self.oracle.choose(2)
        self.iv[v.b] = (lo, cut - 1) if r else (cut, hi)
        return r

    # -- execution ---------------------------------------------------------
    def call(self, name, args):
        f = self.mod.func(name)
        if f is None:
            raise Undecided('no ' + name)
        return self.run(f, args)

    def run(self, f, args):
        env = {}
        b, prev = 0, None
        while True:
            if b in f.dead:
                raise Err(f.name)
            bl = f.blocks[b]
            ph = []
            for i in bl:
                if i['op'] != 'phi':
                    break
                v = None
                for pb, o in i['o']:
                    if pb == prev:
                        v = self.val(o, env, args)
                        break
                ph.append((i['id'], v))
            for k, v in ph:
                env[k] = v
            nb = None
            for i in bl[len(ph):]:
                self.steps += 1
                if self.steps > self.limit:
                    raise Limit('too many steps')
                op = i['op']
                if op == 'br':
                    if not i['o']:
                        nb = i['succ'][0]
                    else:
                        c = self.val(i['o'][0], env, args)
                        nb = i['succ'][0] if self.truth(c) else i['succ'][1]
                elif op == 'switch':
                    c = self.val(i['o'][0], env, args)
                    if not isinstance(c, int):
                        raise Undecided('switch on state')
                    nb = i['succ'][0]
                    for cv, cb in i['cases']:
                        if cv & ((1 << 64) - 1) == c or cv == c:
                            nb = cb
                elif op == 'ret':
                    return self.val(i['o'][0], env, args) if i['o'] else None
                elif op == 'unreachable':
                    raise Err(f.name)
                else:
                    try:
                        env[i['id']] = self.ins(i, env, args)
                    except (TypeError, AttributeError, IndexError, ValueError) as e:
                        raise Undecided(f'{op} at {i["l"][0][:2] if i["l"] else f.name}: {e}')
            prev, b = b, nb

    def truth(self, c):
        if isinstance(c, int):
            return c & 1
        if isinstance(c, BV):
            return self.decide(c.b[0])
        raise Undecided('branch on ' + type(c).__name__)

    def val(self, o, env, args):
        k = o[0]
        if k == 'i':
            return env[o[1]]
        if k == 'a':
            return args[o[1]]
        if k in 'cf':
            return self.const(o)
        if k == 'null':
            return 0
        if k == 'fn':
            return ('fn', o[1])
        if k == 'g':
            return ('p', o[1], 0)
        if k == 'zero':
            return 0
        if k in ('undef', 'poison', 'md'):
            return 0
        if k == 'data' or k == 'vec':
            r, s = 0, 0
            for e in o[2]:
                if e[0] != 'c':
                    raise Undecided('vector constant')
                r |= (e[1] & ((1 << e[2]) - 1)) << s
                s += e[2]
            return r
        raise Undecided('operand ' + str(k))

    def ins(self, i, env, args):
        op, t = i['op'], i['t']
        if op == 'alloca':
            self.nobj += 1
            return ('p', f'alloca{self.nobj}', 0)
        V = [self.val(o, env, args) for o in i['o']] if op not in ('getelementptr', 'call') else None
        if op == 'getelementptr':
            p = self.val(i['o'][0], env, args)
            off = i['off']
            for o, s in i['var']:
                x = self.val(o, env, args)
                if not isinstance(x, int):
                    x = self.pick(x)
                if x >> 63:
                    x -= 1 << 64
                off += x * s
            return ('p', p[1], p[2] + off)
        if op == 'load':
            return self.load(V[0], i['sz'], t)
        if op == 'store':
            self.store(V[1], V[0], i['sz'])
            return None
        if op == 'call':
            return self.docall(i, env, args)
        if op in ('bitcast', 'freeze'):
            if t in ('float', 'double') or i.get('ot') in ('float', 'double'):
                if t != i.get('ot'):
                    raise Undecided('bit cast of a float')
            return V[0]
        w = width(t)
        if op in ('xor', 'and', 'or'):
            a, b = (self.ints(v, w) for v in V)
            if isinstance(a, int) and isinstance(b, int):
                return a ^ b if op == 'xor' else a & b if op == 'and' else a | b
            A, B = bits_of(a, w), bits_of(b, w)
            if op == 'xor':
                return mk([x ^ y for x, y in zip(A, B)])
            r = []
            for x, y in zip(A, B):
                z = self.andb(x, y)
                r.append(z if op == 'and' else x ^ y ^ z)
            return mk(r)
        if op in ('shl', 'lshr', 'ashr'):
            a, n = V
            if not isinstance(n, int):
                raise Undecided('shift by state')
            e = elem(t)
            if e != w:
                n &= (1 << e) - 1
            if isinstance(a, Lin):
                if op == 'shl':
                    return self.norm(Lin(a.c << n, {k: c << n for k, c in a.d.items()}, w))
                a = self.tobits(a, w)
            B = bits_of(a, w)
            r = []
            for s in range(0, w, e):
                L = B[s:s + e]
                f = L[-1] if op == 'ashr' else 0
                r += ([0] * n + list(L))[:e] if op == 'shl' else (list(L) + [f] * n)[n:n + e]
            return mk(r)
        if op == 'shufflevector':
            e = elem(t)
            wi = width(i.get('ot', t)) if i.get('ot') else w
            src = bits_of(V[0], wi) + bits_of(V[1], wi)
            r = []
            for m in i['mask']:
                r += [0] * e if m < 0 else list(src[m * e:m * e + e])
            return mk(r)
        if op in ('add', 'sub', 'mul'):
            a, b = V
            if isinstance(a, tuple) or isinstance(b, tuple):
                raise Undecided('pointer arithmetic')
            if isinstance(a, int) and isinstance(b, int):
                r = a + b if op == 'add' else a - b if op == 'sub' else a * b
                return r & ((1 << w) - 1)
            A, B = self.tolin(a, w), self.tolin(b, w)
            if op == 'mul':
                if A.d and B.d:
                    return BV(self.fb(('mul',) + tuple(sorted((A.key(), B.key()), key=_kord)), w))
                if A.d:
                    A, B = B, A
                return self.norm(Lin(A.c * B.c, {k: A.c * c for k, c in B.d.items()}, w))
            s = 1 if op == 'add' else -1
            d = dict(A.d)
            for k, c in B.d.items():
                d[k] = d.get(k, 0) + s * c
            return self.norm(Lin(A.c + s * B.c, d, w))
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            a, b = V
            if not isinstance(b, int):
                raise Undecided('division by state')
            if isinstance(a, int):
                if op[0] == 's':
                    sa = a - (1 << w) if a >> (w - 1) else a
                    sb = b - (1 << w) if b >> (w - 1) else b
                    q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
                    return (q if op == 'sdiv' else sa - q * sb) & ((1 << w) - 1)
                if b == 0:
                    raise Undecided('division by zero')
                return a // b if op == 'udiv' else a % b
            if op[0] == 's':
                raise Undecided('signed division of state')
            a = self.ints(a, w)
            if b & (b - 1) == 0:
                k = b.bit_length() - 1
                B = bits_of(a, w)
                return mk(list(B[k:]) + [0] * k) if op == 'udiv' else mk(list(B[:k]) + [0] * (w - k))
            if op == 'urem':
                raise Undecided('remainder of state')
            lo, hi = self.interval(a)
            q0, q1 = lo // b, hi // b
            if q1 - q0 > 64:
                raise Undecided('division with many classes')
            q = q0 + self.oracle.choose(q1 - q0 + 1)
            self.iv[a.b] = (max(lo, q * b), min(hi, q * b + b - 1))
            return q
        if op == 'icmp':
            return self.icmp(i['pred'], V[0], V[1], i['ot'])
        if op == 'fcmp':
            a, b = V
            if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
                return int({'lt': a < b, 'gt': a > b, 'le': a <= b, 'ge': a >= b, 'eq': a == b, 'ne': a != b}[i['pred'][1:]])
            p = i['pred'][1:]
            if p not in ('lt', 'gt', 'le', 'ge'):
                raise Undecided('equality of reals')
            r = self.oracle.choose(2)
            self.conds.append((a, b, int(bool(r) == (p in ('lt', 'le')))) if True else None)
            return r
        if op == 'select':
            return V[1] if self.truth(V[0]) else V[2]
        if op == 'trunc':
            v = V[0]
            if isinstance(v, Lin):
                return self.norm(Lin(v.c, v.d, w))
            return v & ((1 << w) - 1) if isinstance(v, int) else mk(v.b[:w])
        if op in ('zext', 'sext'):
            v = V[0]
            ow = width(i['ot'])
            if isinstance(v, Lin):
                r = v.rng()
                if r and r[1] < (1 << (ow - (op == 'sext'))):
                    return Lin(v.c, v.d, w)
                v = self.tobits(v, ow)
            B = bits_of(v, ow)
            return mk(list(B) + [B[-1] if op == 'sext' else 0] * (w - ow))
        if op in ('uitofp', 'sitofp'):
            v = V[0]
            ow = width(i['ot'])
            if isinstance(v, int):
                if op == 'sitofp' and v >> (ow - 1):
                    v -= 1 << ow
                return Fraction(v)
            L = self.tolin(v, ow)
            r = L.rng()
            if r is None or r[1] >= (1 << (ow - (op == 'sitofp'))):
                if not self.wrap or r is None or r[1] > (1 << ow) + (1 << ow - 20):
                    raise Undecided('conversion of a wrapping value')
            return self.real(Lin(Fraction(L.c), {k: Fraction(c) for k, c in L.d.items()}, None), t)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg'):
            return self.fp(op, V, t)
        if op in ('fpext', 'fptrunc'):
            v = V[0]
            if isinstance(v, Fraction):
                return Fraction(float(v)) if t == 'double' else v
            return self.real(v, t)
        raise Undecided('operation ' + op)

    def andb(self, x, y):
        if x == 0 or y == 0:
            return 0
        if x == 1:
            return y
        if y == 1:
            return x
        if x == y:
            return x
        if x ^ y == 1:
            return 0
        return self.fb(('and', min(x, y), max(x, y)), 1)[0]

    def icmp(self, pred, a, b, t):
        if isinstance(a, tuple) or isinstance(b, tuple):
            if pred in ('eq', 'ne'):
                return int((a == b) == (pred == 'eq'))
            if isinstance(a, tuple) and isinstance(b, tuple) and a[1] == b[1]:
                a, b = a[2], b[2]
                t = 'i64'
            else:
                raise Undecided('pointer order')
        w = width(t)
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == 's':
                a = a - (1 << w) if a >> (w - 1) else a
                b = b - (1 << w) if b >> (w - 1) else b
            return int({'eq': a == b, 'ne': a != b, 'gt': a > b, 'lt': a < b, 'ge': a >= b, 'le': a <= b}[pred if pred in ('eq', 'ne') else pred[1:]])
        if isinstance(a, int):
            a, b = b, a
            pred = {'gt': 'lt', 'lt': 'gt', 'ge': 'le', 'le': 'ge'}.get(pred[1:], None) and pred[0] + {'gt': 'lt', 'lt': 'gt', 'ge': 'le', 'le': 'ge'}[pred[1:]] or pred
        a = self.ints(a, w)
        if not isinstance(b, int):
            b = self.ints(b, w)
            d = [x ^ y for x, y in zip(bits_of(a, w), bits_of(b, w))]
            if pred in ('eq', 'ne'):
                a, b = mk(d), 0
                if isinstance(a, int):
                    return int((a == 0) == (pred == 'eq'))
            else:
                raise Undecided('order of two state values')
        if pred in ('eq', 'ne'):
            B = [self.reduce(x ^ y) for x, y in zip(bits_of(a, w), bits_of(b, w))]
            if 1 in B:
                return int(pred == 'ne')
            D = set(x for x in B if x)
            if not D:
                return int(pred == 'eq')
            if len(D) == 1:
                z = self.decide(D.pop())
                return int((z == 0) == (pred == 'eq'))
            # several bits: equal only where all vanish
            r = self.oracle.choose(2)
            if r:
                for x in D:
                    self.assume(x)
            return int(bool(r) == (pred == 'eq'))
        if pred[0] == 's':
            B = bits_of(a, w)
            if b >> (w - 1):
                b -= 1 << w
            if B[-1] == 1 or b < 0:
                raise Undecided('signed order of state')
            if B[-1] > 1:
                if b in (0,) and pred in ('slt', 'sge'):
                    z = self.decide(B[-1])
                    return int(bool(z) == (pred == 'slt'))
                raise Undecided('signed order of state')
        cut = b if pred[1:] in ('lt', 'ge') else b + 1
        r = self.split(a, cut)
        return r if pred[1:] in ('lt', 'le') else 1 - r

    # -- reals -------------------------------------------------------------
    def real(self, L, t):
        """mark whether the value is represented exactly in type t"""
        if isinstance(L, Fraction):
            return L
        r = L.rng()
        ex = L.ex
        if r is None:
            return L
        den = 1
        for v in list(L.d.values()) + [L.c]:
            den = max(den, v.denominator)
        num = [abs(int(v * den)) for v in list(L.d.values()) + [L.c] if v]
        if den & (den - 1):
            ex = False
        else:
            g = 0
            import math
            for v in num:
                g = math.gcd(g, v)
            if g and max(abs(r[0]), abs(r[1])) * den / g > (1 << (24 if t == 'float' else 53)):
                ex = False
        return Lin(L.c, L.d, None, ex)

    def fp(self, op, V, t):
        rnd = (lambda x: Fraction(float(x))) if t == 'double' else f32
        if op == 'fneg':
            V = [Fraction(-1), V[0]]
            op = 'fmul'
        a, b = V
        if isinstance(a, int):
            a = Fraction(a)
        if isinstance(b, int):
            b = Fraction(b)
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            return rnd({'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b, 'fdiv': lambda: a / b}[op]())
        A = a if isinstance(a, Lin) else Lin(a, {}, None)
        B = b if isinstance(b, Lin) else Lin(b, {}, None)
        ex = A.ex and B.ex
        if op in ('fadd', 'fsub'):
            s = 1 if op == 'fadd' else -1
            d = dict(A.d)
            for k, c in B.d.items():
                d[k] = d.get(k, 0) + s * c
            return self.real(self.norm(Lin(A.c + s * B.c, d, None, ex)), t)
        if op == 'fdiv':
            if B.d:
                raise Undecided('division of reals')
            B = Lin(1 / B.c, {}, None)
        if A.d and B.d:
            k = ('mul',) + tuple(sorted((A.key(), B.key()), key=_kord))
            return Lin(Fraction(0), {k: Fraction(1)}, None, ex)
        if A.d:
            A, B = B, A
        return self.real(self.norm(Lin(A.c * B.c, {k: A.c * c for k, c in B.d.items()}, None, ex)), t)

    # -- calls -------------------------------------------------------------
    def docall(self, i, env, args):
        n = ir.callee_name(i)
        if n is None:
            raise Undecided('indirect call')
        if n.startswith(('llvm.experimental.noalias', 'llvm.lifetime', 'llvm.assume', 'llvm.dbg')):
            return None
        if n.startswith('llvm.expect'):
            return self.val(i['o'][0], env, args)
        V = [self.val(o, env, args) for o in i['o']]
        m = re.match(r'llvm\.x86\.(?:sse2|avx2)\.(ps[rl]l)i?\.([wdq])', n)
        if m:
            e = {'w': 16, 'd': 32, 'q': 64}[m.group(2)]
            w = width(i['t'])
            B = bits_of(V[0], w)
            k = V[1] & 0xffffffff
            r = []
            for s in range(0, w, e):
                L = list(B[s:s + e])
                r += ([0] * k + L)[:e] if m.group(1) == 'psll' else (L + [0] * k)[k:k + e]
            return mk(r)
        if n.startswith(('llvm.memcpy', 'llvm.memmove')) or n in ('memcpy', 'memmove'):
            d, s, l = V[:3]
            if not isinstance(l, int):
                raise Undecided('copy length')
            t = [self.mem.get((s[1], s[2] + k)) for k in range(l)]
            for k in range(l):
                self.touched.add((d[1], d[2] + k))
                if t[k] is None:
                    self.mem.pop((d[1], d[2] + k), None)
                else:
                    self.mem[(d[1], d[2] + k)] = t[k]
            return d
        if n.startswith('llvm.memset') or n == 'memset':
            d, v, l = V[:3]
            for k in range(l):
                self.store(('p', d[1], d[2] + k), v & 255, 1)
            return d
        if n in self.stub:
            return self.stub[n](self, V)
        b = n
        for p in ('llvm.',):
            if b.startswith(p):
                b = b[len(p):]
        b = re.sub(r'\.f(32|64)$', '', b)
        b = {'logf': 'log', 'expf': 'exp', '_ZSt3logf': 'log', '_ZSt3logd': 'log', 'sqrtf': 'sqrt', 'fabsf': 'fabs'}.get(b, b)
        if b in ('log', 'exp', 'sqrt', 'log1p', 'log1pf'):
            v = V[0]
            if isinstance(v, (Fraction, int)):
                v = Lin(Fraction(v), {}, None)
            return Lin(Fraction(0), {(b, v.key()): Fraction(1)}, None, v.ex)
        f = self.mod.func(n)
        if f is not None and f.blocks:
            return self.run(f, V)
        raise Undecided('call of ' + n)


def f32(x):
    import struct
    return Fraction(struct.unpack('f', struct.pack('f', float(x)))[0])


class Oracle:
    def __init__(self, pre=()):
        self.pre = list(pre)
        self.log = []

    def choose(self, n):
        k = len(self.log)
        c = self.pre[k] if k < len(self.pre) else 0
        self.log.append((c, n))
        return c


def paths(fn, limit=4000):
    """run fn(oracle) over every combination of choices"""
    pre = []
    out = []
    while True:
        o = Oracle(pre)
        out.append(fn(o))
        if len(out) > limit:
            raise Limit('too many paths')
        l = o.log
        while l and l[-1][0] + 1 >= l[-1][1]:
            l = l[:-1]
        if not l:
            return out
        pre = [c for c, _ in l[:-1]] + [l[-1][0] + 1]


# ---------------------------------------------------------------------------
# reference: the SFMT recurrence and the byte stream drawn from it

SFMT = {11213: dict(M=68, L1=14, L2=3, R1=7, R2=3, mask=(0xeffff7fb, 0xffffffef, 0xdfdfbfff, 0x7fffdbfd), parity=(1, 0, 0xe8148000, 0xd0c7afa3))}


def ref_next(S, E=11213):
    """S: list of N lists of 128 forms; one full refresh of the state"""
    P = SFMT[E]
    N = len(S)
    mask = sum(m << 32 * i for i, m in enumerate(P['mask']))

    def step(a, b, c, d):
        r = list(a)
        for i in range(128):
            if i >= 8 * P['L2']:
                r[i] ^= a[i - 8 * P['L2']]
            if (mask >> i) & 1 and (i % 32) + P['R1'] < 32:
                r[i] ^= b[i + P['R1']]
            if i + 8 * P['R2'] < 128:
                r[i] ^= c[i + 8 * P['R2']]
            if i % 32 >= P['L1']:
                r[i] ^= d[i - P['L1']]
        return r
    S = [list(x) for x in S]
    for n in range(N):
        S[n] = step(S[n], S[(n + P['M']) % N], S[(n - 2) % N], S[(n - 1) % N])
    return S


def ev(L, asg):
    """numeric value of a real under an assignment of the input bits"""
    import math
    if isinstance(L, (int, Fraction)):
        return float(L)
    if isinstance(L, tuple):          # a key
        L = Lin(L[1], dict(L[2]), L[3])
    s = float(L.c)
    for k, c in L.d.items():
        if isinstance(k, tuple):
            if k[0] == 'mul':
                v = ev(k[1], asg) * ev(k[2], asg)
            else:
                a = ev(k[1], asg)
                v = math.log(a) if k[0] == 'log' else math.exp(a) if k[0] == 'exp' else math.sqrt(a)
        else:
            v = bin(k & asg).count('1') & 1
        s += float(c) * v
    return s


NB = 1408


class Stream:
    """the documented byte stream of a generator whose state bits are the first inputs"""
    cache = {}

    def __init__(self, n):
        self.S = None
        self.k = 0
        self.n = n

    def state(self, k):
        if k not in Stream.cache:
            Stream.cache[k] = [[1 << (128 * i + j + 1) for j in range(128)] for i in range(NB // 16)] if k == 0 else ref_next(self.state(k - 1))
        return Stream.cache[k]

    def next(self, size):
        n = (self.n + size - 1) // size * size
        if n >= NB:
            self.k += 1
            n = 0
        S = self.state(self.k)
        self.n = n + size
        r = []
        for b in range(n, n + size):
            r += S[b // 16][8 * (b % 16):8 * (b % 16) + 8]
        return r


def fresh(mod, n, oracle=None):
    m = Interp(mod, oracle)
    st = mod.structs['rng']
    m.noff = st.off('n')
    bits = m.inp(8 * NB, 'state')
    for b in range(NB):
        m.mem[('rng', b)] = bits[8 * b:8 * b + 8]
    m.store(('p', 'rng', m.noff), n, 4)
    m.ndraw = 0
    m.touched.clear()
    return m


def state_is(m, st):
    """does the generator hold what the stream says?"""
    S = st.state(st.k)
    for b in range(NB):
        if m.mem.get(('rng', b)) != S[b // 16][8 * (b % 16):8 * (b % 16) + 8]:
            return f'state byte {b} is not what {st.k} refresh(es) of the recurrence give'
    n = m.load(('p', 'rng', m.noff), 4, 'i32')
    if n != st.n:
        return f'next byte {n}, expected {st.n}'
    return None


def modules():
    """(name, module): the vector and the portable form of the generator"""
    out = []
    import glob, os
    src = sorted(os.path.relpath(f, proj.REPO) for f in glob.glob(os.path.join(proj.REPO, 'src/util/rng/*.cc')))
    out.append(('sse2', proj.module('ref', src)))
    out.append(('portable', proj.module('ref', src, extra=('-U__SSE2__',))))
    return out
