"""SIMD classes: every operation of v4, v8 and v16 evaluated beside its lane-wise scalar definition."""
import os, re, hashlib
import proj, vg, kern, absev
from absev import Abs, AModel
from vg import P
from proj import Broken

CLASSES = [  # name, width, header, flags
    ('v4_portable', 4, 'v4/v4_portable.h', ['-DUSE_V4_PORTABLE']),
    ('v4_sse', 4, 'v4/v4_sse.h', ['-DUSE_V4_SSE']),
    ('v4_avx', 4, 'v4/v4_avx.h', ['-DUSE_V4_AVX', '-mavx']),
    ('v4_avx2', 4, 'v4/v4_avx2.h', ['-DUSE_V4_AVX2', '-mavx2', '-mfma']),
    ('v8_portable', 8, 'v8/v8_portable.h', ['-DUSE_V4_PORTABLE', '-DUSE_V8_PORTABLE']),
    ('v8_avx', 8, 'v8/v8_avx.h', ['-DUSE_V4_AVX', '-DUSE_V8_AVX', '-mavx']),
    ('v8_avx2', 8, 'v8/v8_avx2.h', ['-DUSE_V4_AVX2', '-DUSE_V8_AVX2', '-mavx2', '-mfma']),
    ('v16_portable', 16, 'v16/v16_portable.h', ['-DUSE_V4_PORTABLE', '-DUSE_V8_PORTABLE', '-DUSE_V16_PORTABLE']),
    ('v16_avx512', 16, 'v16/v16_avx512.h', ['-DUSE_V4_AVX2', '-DUSE_V8_AVX2', '-DUSE_V16_AVX512', '-mavx2', '-mfma', '-mavx512f', '-mavx512dq']),
]
STR = 32                # floats between the blocks p0, p1, ... of a witness
CM1 = 'acos asin atan ceil cos cosh exp floor log log10 sin sinh tan tanh fabs sqrt'.split()
CM2 = 'atan2 fmod pow copysign'.split()


def declared(W, txt):
    """names of the operations the class declares (friends and members)"""
    c = re.sub(r'#if 0.*?#endif', '', txt, flags=re.S)
    names = set(re.findall(r'\b(\w+) *\(', ' '.join(re.findall(r'friend inline [^;]*;', c)))) - {'ALIGNED', 'operator'}
    for a in re.findall(r'CMATH_FR[12]\((\w+)\);', c):
        names.add(a)
    ops = {'f': set(), 'i': set(), 'fl': set(), 'fa': set(), 'ia': set()}
    for ret, op, args in re.findall(r'friend inline +(\w+) +operator *([^\s(]+) *\(([^)]*)\)', c):
        t = 'f' if f'v{W}float' in args else 'i'
        n = 2 if args.count(f'v{W}') == 2 else (3 if re.search(r', *int', args) else 1)
        ops[t].add((op, n))
    return names - {'CMATH_FR1', 'CMATH_FR2', 'fn'}, ops


def witness(W, txt):
    """list of (test, signature, statements, lane-wise definition) and the source"""
    names, ops = declared(W, txt)
    T = []
    L = f'load_{W}x1'
    S = f'store_{W}x1'

    def add(name, sig, code, ref):
        T.append((name, sig, code, ref))
    ld = lambda v, k: f'{L}(p+{k*STR},{v});'
    st = lambda v, k=0: f'{S}({v},p+{k*STR});'
    F = lambda k, j='k': f'p[{k*STR}+{j}]'
    I = lambda k, j='k': f'q[{k*STR}+{j}]'
    lane = lambda s: 'for(k=0;k<W;k++){' + s + '}'
    # arithmetic and comparisons
    for t, V, X, sg in (('f', 'VF', F, 'f'), ('i', 'VI', I, 'i')):
        for op, n in sorted(ops[t]):
            nm = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '%': 'mod', '^': 'xor', '&': 'and', '|': 'or', '<<': 'shl', '>>': 'shr', '<': 'lt', '>': 'gt', '==': 'eq',
                  '!=': 'ne', '<=': 'le', '>=': 'ge', '&&': 'land', '||': 'lor', '++': 'inc', '--': 'dec', '!': 'not', '~': 'inv'}[op]
            if op in ('~',) and t == 'f':
                continue
            if n == 2 and nm in ('lt', 'gt', 'eq', 'ne', 'le', 'ge', 'land', 'lor'):
                add(f'{t}_{nm}', 'o' + sg + 'e', f'{V} a,b; VI c; {ld("a",1)}{ld("b",2)} c=a{op}b; {st("c")}', lane(f'{I(0)}=({X(1)}{op}{X(2)})?-1:0;'))
            elif n == 2:
                s2 = {'<<': 's', '>>': 's'}.get(op, 'nz' if op in '/%' else sg)
                add(f'{t}_{nm}', ['o', sg, s2], f'{V} a,b,c; {ld("a",1)}{ld("b",2)} c=a{op}b; {st("c")}', lane(f'{X(0)}={X(1)}{op}{X(2)};'))
            elif op == '!':
                add(f'{t}_not', 'o' + ('z' if t == 'f' else 'zi'[0]), f'{V} a; VI c; {ld("a",1)} c=!a; {st("c")}', lane(f'{I(0)}=(!{X(1)})?-1:0;'))
            elif op in ('++', '--') and n == 1:
                add(f'{t}_pre{nm}', 'o' + sg, f'{V} a,c; {ld("a",1)} c={op}a; {st("c")}{st("a",1)}', lane(f'{X(0)}={op}{X(1)};'))
            elif op in ('++', '--') and n == 3:
                add(f'{t}_post{nm}', 'o' + sg, f'{V} a,c; {ld("a",1)} c=a{op}; {st("c")}{st("a",1)}', lane(f'{X(0)}={X(1)}{op};'))
            elif n == 1:
                add(f'{t}_u{nm}', 'o' + sg, f'{V} a,c; {ld("a",1)} c={op}a; {st("c")}', lane(f'{X(0)}={op}{X(1)};'))
        for op, nm in (('+=', 'add'), ('-=', 'sub'), ('*=', 'mul'), ('/=', 'div')) + ((('%=', 'mod'), ('^=', 'xor'), ('&=', 'and'), ('|=', 'or'), ('<<=', 'shl'), ('>>=', 'shr')) if t == 'i' else ()):
            s2 = {'<<=': 's', '>>=': 's'}.get(op, 'nz' if op in ('/=', '%=') else sg)
            add(f'{t}_as{nm}', [sg, s2], f'{V} a,b; {ld("a",0)}{ld("b",1)} a{op}b; {st("a")}', lane(f'{X(0)}{op}{X(1)};'))
        add(f'{t}_assign', 'o' + sg, f'{V} a,b; {ld("a",1)} b=a; {st("b")}', lane(f'{X(0)}={X(1)};'))
        add(f'{t}_copy', 'o' + sg, f'{V} a; {ld("a",1)} {V} b(a); {st("b")}', lane(f'{X(0)}={X(1)};'))
        sc = 'p' if t == 'f' else 'q'
        add(f'{t}_scalar', 'o' + sg, f'{V} b({sc}[{STR}]); {st("b")}', lane(f'{X(0)}={sc}[{STR}];'))
        add(f'{t}_lanes', 'o' + sg, f'{V} b({",".join(f"{sc}[{STR}+{j}]" for j in range(W))}); {st("b")}', lane(f'{X(0)}={X(1)};'))
        add(f'{t}_get', 'o' + sg, f'{V} b; {ld("b",1)} ' + ''.join(f'{sc}[{j}]=b({j});' for j in range(W)), lane(f'{X(0)}={X(1)};'))
        add(f'{t}_set', 'o' + sg + sg, f'{V} b; {ld("b",1)} ' + ''.join(f'b[{j}]={sc}[{2*STR+j}];' for j in range(0, W, 2)) + st('b'), lane(f'{X(0)}=(k&1)?{X(1)}:{X(2)};'))
        add(f'{t}_mixed', 'o' + sg, f'VV a; {ld("a",1)} {V} b(a); {V} c; c=a; {st("b")}{st("c",1)}', lane(f'{X(0)}={X(1)};'))
    for fn in CM1:
        if fn in names:
            sg = 'p' if fn in ('log', 'log10', 'sqrt') else 'f'
            add('f_' + fn, 'o' + sg, f'VF a,c; {ld("a",1)} c={fn}(a); {st("c")}', lane(f'{F(0)}=::{fn if fn not in ("fabs","sqrt") else fn + "f"}({F(1)});'))
    for fn in CM2:
        if fn in names:
            add('f_' + fn, 'off', f'VF a,b,c; {ld("a",1)}{ld("b",2)} c={fn}(a,b); {st("c")}', lane(f'{F(0)}=::{fn if fn != "copysign" else "copysignf"}({F(1)},{F(2)});'))
    for fn, ex in (('rsqrt', '1.f/sqrtf(%s)'), ('rsqrt_approx', '1.f/sqrtf(%s)'), ('rcp', '1.f/(%s)'), ('rcp_approx', '1.f/(%s)')):
        if fn in names:
            add('f_' + fn, 'op', f'VF a,c; {ld("a",1)} c={fn}(a); {st("c")}', lane(f'{F(0)}={ex % F(1)};'))
    for fn, ex in (('fma', '{a}*{b}+{c}'), ('fms', '{a}*{b}-{c}'), ('fnms', '{c}-{a}*{b}')):
        if fn in names:
            add('f_' + fn, 'offf', f'VF a,b,c,d; {ld("a",1)}{ld("b",2)}{ld("c",3)} d={fn}(a,b,c); {st("d")}', lane(F(0) + '=' + ex.format(a=F(1), b=F(2), c=F(3)) + ';'))
    for fn, ex in (('clear_bits', '(~{m})&{a}'), ('set_bits', '{m}|{a}'), ('toggle_bits', '{m}^{a}')):
        if fn in names:
            add('f_' + fn, 'omi', f'VI m; VF a,d; {ld("m",1)}{ld("a",2)} d={fn}(m,a); {st("d")}', lane(I(0) + '=' + ex.format(m=I(1), a=I(2)) + ';'))
            add('f_' + fn + '_sign', 'o-f', f'VI m((int)(1u<<31)); VF a,d; {ld("a",2)} d={fn}(m,a); {st("d")}', lane(F(0) + {'clear_bits': f'=fabsf({F(2)});', 'set_bits': f'=-fabsf({F(2)});', 'toggle_bits': f'=-{F(2)};'}[fn]))
    if 'abs' in names:
        add('i_abs', 'oi', f'VI a,c; {ld("a",1)} c=abs(a); {st("c")}', lane(f'{I(0)}={I(1)}>=0?{I(1)}:-{I(1)};'))
    for fn, ex in (('czero', '{m}?0:{a}'), ('notczero', '{m}?{a}:0')):
        add('m_' + fn, 'omf', f'VI m; VF a,d; {ld("m",1)}{ld("a",2)} d={fn}(m,a); {st("d")}', lane(F(0) + '=' + ex.format(m=I(1), a=F(2)) + ';'))
        add('mi_' + fn, 'omi', f'VI m; VI a,d; {ld("m",1)}{ld("a",2)} d={fn}(m,a); {st("d")}', lane(I(0) + '=' + ex.format(m=I(1), a=I(2)) + ';'))
    add('m_merge', 'omff', f'VI m; VF a,b,d; {ld("m",1)}{ld("a",2)}{ld("b",3)} d=merge(m,a,b); {st("d")}', lane(f'{F(0)}={I(1)}?{F(2)}:{F(3)};'))
    add('mi_merge', 'omii', f'VI m; VI a,b,d; {ld("m",1)}{ld("a",2)}{ld("b",3)} d=merge(m,a,b); {st("d")}', lane(f'{I(0)}={I(1)}?{I(2)}:{I(3)};'))
    # whole vectors
    for fn, o in (('any', '||'), ('all', '&&')):
        for sg in ('m', 'A', 'N', 'i', '1'):
            add(f'v_{fn}_{sg}', 'o' + sg, f'VI a; {ld("a",1)} q[0]={fn}(a)?1:0;', f'q[0]=({o.join(I(1, str(j)) for j in range(W))})?1:0;')
    for j in range(W):
        add(f'v_splat{j}', 'of', f'VF a,c; {ld("a",1)} c=splat<{j}>(a); {st("c")}', lane(f'{F(0)}={F(1, str(j))};'))
    perms = [[(j * 3 + 1) % W for j in range(W)], [W - 1 - j for j in range(W)], [(j ^ 1) for j in range(W)], [min(j, 1) for j in range(W)], [(j + W // 2) % W for j in range(W)]]
    for n, pm in enumerate(perms):
        add(f'v_shuffle{n}', 'of', f'VF a,c; {ld("a",1)} c=shuffle<{",".join(map(str, pm))}>(a); {st("c")}', ''.join(f'{F(0, str(j))}={F(1, str(x))};' for j, x in enumerate(pm)))
    add('v_swap', 'ff', f'VF a,b; {ld("a",0)}{ld("b",1)} swap(a,b); {st("a",0)}{st("b",1)}', lane(f'float t={F(0)};{F(0)}={F(1)};{F(1)}=t;'))
    vs = [f'a{j}' for j in range(W)]
    add('v_transpose', 'f' * W, f'VF {",".join(vs)}; ' + ''.join(ld(v, j) for j, v in enumerate(vs)) + f'transpose({",".join(vs)});' + ''.join(st(v, j) for j, v in enumerate(vs)),
        f'int j; for(k=0;k<W;k++) for(j=k+1;j<W;j++){{float t=p[k*{STR}+j];p[k*{STR}+j]=p[j*{STR}+k];p[j*{STR}+k]=t;}}')
    add('x_load', 'of', f'VF a; {ld("a",1)}{st("a")}', lane(f'{F(0)}={F(1)};'))
    add('x_stream', 'of', f'VF a; {ld("a",1)} stream_{W}x1(a,p);', lane(f'{F(0)}={F(1)};'))
    add('x_clear', 'o', f'clear_{W}x1(p);', lane(f'{F(0)}=0;'))
    add('x_copy', 'of', f'copy_{W}x1(p,p+{STR});', lane(f'{F(0)}={F(1)};'))
    add('x_swap', 'ff', f'swap_{W}x1(p,p+{STR});', lane(f'float t={F(0)};{F(0)}={F(1)};{F(1)}=t;'))
    for fn, o in (('increment', '+='), ('decrement', '-='), ('scale', '*=')):
        if f'{fn}_{W}x1' in names:
            add('x_' + fn, 'ff', f'VF a; {ld("a",1)} {fn}_{W}x1(p,a);', lane(f'{F(0)}{o}{F(1)};'))
    if 'trilinear' in names:
        add('f_trilinear', 'ff', f'VF l,h; {ld("l",0)} trilinear(l,h); {st("l")}{st("h",1)}',
            'float x=p[0],y=p[1],z=p[2]; for(k=0;k<4;k++){float w=(1+((k&1)?x:-x))*(1+((k&2)?y:-y)); p[k]=w*(1-z); p[%d+k]=w*(1+z);}' % STR)
    for nm in sorted(names):
        mt = re.match(rf'^load_{W}x(\d+)_bc$', nm)
        if mt:
            vv = [f'a{j}' for j in range(int(mt[1]))]
            add('t_' + nm, 'o' * len(vv) + '-' * (16 - len(vv)) + 'f', f'VF {",".join(vv)}; {nm}(p+{16*STR},{",".join(vv)});' + ''.join(st(v, j) for j, v in enumerate(vv)),
                ''.join(f'for(k=0;k<W;k++) p[{j*STR}+k]=p[{16*STR+j}];' for j in range(len(vv))))
    # transposed access: the addresses are blocks 16+j of p, the vectors are blocks 0..
    B = 16
    ptr = lambda n: ','.join(f'p+{(B + j) * STR}' for j in range(n))
    for nm in sorted(names):
        mt = re.match(rf'^(load|store)_{W}x(\d+)_tr(_p)?$', nm)
        if not mt:
            continue
        n = int(mt[2])
        vv = [f'a{j}' for j in range(n)]
        if mt[3]:
            # packed: n row addresses of W elements hold W records of n elements, two half rows apart
            npt = n
            if W != 16 or n not in (8, 16):
                continue
            if n == 8:
                idx = lambda j, k: (B + k // 2, j + 8 * (k & 1))          # record k of 8 elements
            else:
                idx = lambda j, k: (B + 8 * (j // 8) + k // 2, j % 8 + 8 * (k & 1))   # two groups of 8
        else:
            npt = W
            idx = lambda j, k: (B + k, j)
        cells = [(j, k) + idx(j, k) for j in range(n) for k in range(W)]
        ins = ''.join(ld(v, j) for j, v in enumerate(vv))
        outs = ''.join(st(v, j) for j, v in enumerate(vv))
        if mt[1] == 'load':
            add('t_' + nm, 'o' * n + '-' * (B - n) + 'f' * npt, f'VF {",".join(vv)}; {nm}({ptr(npt)},{",".join(vv)}); {outs}', ''.join(f'p[{j*STR+k}]=p[{b*STR+c}];' for j, k, b, c in cells))
        else:
            add('t_' + nm, 'f' * n + '-' * (B - n) + 'o' * npt, f'VF {",".join(vv)}; {ins} {nm}({",".join(vv)},{ptr(npt)});', ''.join(f'p[{b*STR+c}]=p[{j*STR+k}];' for j, k, b, c in cells))
    src = [f'#include "util/v{W}/v{W}.h"', '#include <math.h>', f'typedef v{W}::v{W} VV; typedef v{W}::v{W}float VF; typedef v{W}::v{W}int VI;', f'using namespace v{W};', f'enum {{ W={W} }};', 'extern "C" {']
    for name, sig, code, ref in T:
        src.append(f'void t_{name}(float *p){{ int *q=(int*)p; (void)q; {code} }}')
        src.append(f'void r_{name}(float *p){{ int *q=(int*)p; int k; (void)q; (void)k; {ref} }}')
    src.append('}')
    covered = set()
    body = ' '.join(c for _, _, c, _ in T)
    for nm in names:
        if re.search(rf'\b{nm}\b', body):
            covered.add(nm)
    return T, '\n'.join(src) + '\n', sorted(names - covered)


BASEA = 1 << 40


def sigs(sig):
    """one letter per block: f real, p square, z real or zero, i integer, m mask, s shift, n/d nonzero, e as the
    block before or not, A/N/1 all, none, one lane set, o to be overwritten, - unused"""
    out = []
    for x in sig:
        out.extend({'nz': 'n'}.get(x, x))
    return out


def fill(m, sig, W, seed):
    import random
    rng = random.Random(seed * 7919 + 13)
    gen = lambda: m.real(vg.Fraction(rng.randint(-10**6, 10**6), rng.randint(1, 10**4)))
    for k, s in enumerate(sigs(sig)):
        if s == '-':
            continue
        for j in range(STR):
            a = BASEA + 4 * (k * STR + j)
            fl = True
            if s == 'e':
                p = a - 4 * STR
                fl = m.fty[p]
                v = m.mem[p] if rng.random() < .5 else gen() if fl else rng.randint(-99, 99)
                if rng.random() < .2:
                    v = 0
            elif s in 'fo':
                v = gen()
            elif s == 'p':
                v = m.real(vg.Fraction(rng.randint(1, 999), rng.randint(1, 999)) ** 2)
            elif s == 'z':
                v = m.real(0 if rng.random() < .5 else rng.randint(-99, 99))
            else:
                fl = False
                v = {'i': lambda: m.rnd.h(77, a) if seed % 2 else rng.randint(-9, 9), 'm': lambda: -rng.randint(0, 1), 's': lambda: rng.randint(0, 15),
                     'n': lambda: rng.choice([-7, -3, -2, 2, 3, 5, 11]), 'A': lambda: -1, 'N': lambda: 0, '1': lambda: -1 if j == seed % W else 0}[s]()
            m.mem[a % P] = v % P
            m.fty[a % P] = fl


def outcome(mod, g, fname, sig, W, seed):
    f = mod.func(fname)
    if f is None:
        raise Broken('no ' + fname)
    m = AModel(g, seed)
    m.fty = {}
    m.approx = {0: 0.0}
    m.strict = True
    m.unk = set()
    m.ufun = lambda nm, a, pit: mathfn(m, nm, a)
    m.statics(mod)
    fill(m, sig, W, seed)
    before = dict(m.mem)
    fty0 = dict(m.fty)
    ab = Abs(mod, m, lambda ab, pit, callee, args, e: mathfn(m, callee, args) if isinstance(callee, str) else None)
    ab.call(f, [BASEA])
    pit = m.pit({})
    canon = lambda a, mem, fty: (pit._bits(mem[a]) if fty.get(a) else mem[a]) if a in mem else None
    wr = {}
    for a, v, e in ab.log:
        r = a - BASEA
        if 0 <= r < 4 * STR * 40:
            x = canon(a, m.mem, m.fty)
            if x != canon(a, before, fty0):
                wr[r] = x
    return wr, ab


def mathfn(m, nm, args):
    if isinstance(nm, tuple):
        nm = nm[0]
    if not isinstance(nm, str):
        return None
    if nm.startswith('llvm.') and nm.split('.')[1] not in CM1 + CM2:
        m.unk.add(nm)
        return None
    if nm.startswith('llvm.'):
        nm = nm.split('.')[1]
    if nm.endswith('f') and nm[:-1] in CM1 + CM2:
        nm = nm[:-1]
    if nm in CM1 + CM2:
        return m.rnd.h(91, vg.crc(nm), *[a % P for a in args])
    return None


def run(nm, W, hdr, flags, seeds=(1, 2, 3), only=None):
    """-> obligations [(test, seed, ok, text)], names not covered"""
    txt = open(os.path.join(proj.REPO, 'src/util', hdr)).read()
    T, src, unc = witness(W, txt)
    d = os.path.join(proj.BUILD, 'wit')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{nm}-{hashlib.sha1(src.encode()).hexdigest()[:10]}.cc')
    if not os.path.exists(path):
        open(path + f'.{os.getpid()}', 'w').write(src)
        os.rename(path + f'.{os.getpid()}', path)
    keep = [x + t[0] for t in T for x in ('t_', 'r_')]
    mod = proj.module('ref', [path], norm=proj.NORMV, keep=keep, extra=flags)
    g = vg.Graph()
    out = []
    for name, sig, code, ref in T:
        if only and not re.search(only, name):
            continue
        for s in seeds:
            try:
                a, ab = outcome(mod, g, 't_' + name, sig, W, s)
                b, rb = outcome(mod, g, 'r_' + name, sig, W, s)
            except absev.Aborted as e:
                out.append((name, s, False, 'stops'))
                continue
            if any(isinstance(c, str) and c.startswith('_Z') and name.split('_', 1)[1] in c for c, _, _ in ab.calls):
                unc = sorted(set(unc) | {name.split('_', 1)[1] + ' (declared, not defined)'})
                continue
            unk = ab.m.unk | rb.m.unk
            bad = [r for r in sorted(set(a) | set(b)) if a.get(r) != b.get(r)]
            if bad and unk:
                out.append((name, s, None, 'unknown instruction ' + ', '.join(sorted(unk))))
                continue
            out.append((name, s, not bad, '' if not bad else ', '.join(f'block {r//4//STR} lane {r//4%STR}' for r in bad[:4])))
    return out, unc, T, mod
