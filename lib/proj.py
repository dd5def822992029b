"""Compile /repo's current sources to bitcode, normalise, dump, load."""
import os, subprocess, hashlib, glob, sys, shutil, tempfile, fcntl
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VPIC_REPO', '/repo')
BUILD = os.environ.get('VPIC_SA_BUILD', os.path.join(VERIF, 'build'))
CXX = '/usr/bin/clang++-18'
MPI_INC = ['-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']

CONFIGS = {
    # the five configurations of the build ...
    'ref': ['-DVPIC_USE_PTHREADS'],
    'v4sse': ['-DVPIC_USE_PTHREADS', '-DUSE_V4_SSE', '-DVPIC_USE_LEGACY_SORT'],
    'v8avx2': ['-DVPIC_USE_PTHREADS', '-mavx2', '-mfma', '-DUSE_V4_AVX2', '-DUSE_V8_AVX2'],
    'v8omp': ['-DVPIC_USE_OPENMP', '-I' + os.path.join(VERIF, 'lib', 'inc'), '-DUSE_V4_PORTABLE', '-DUSE_V8_PORTABLE'],
    'v16portable': ['-DVPIC_USE_PTHREADS', '-DUSE_V4_PORTABLE', '-DUSE_V8_PORTABLE', '-DUSE_V16_PORTABLE'],
    # ... and configurations only the static analysis covers
    'v4portable': ['-DVPIC_USE_PTHREADS', '-DUSE_V4_PORTABLE'],
    'v8portable': ['-DVPIC_USE_PTHREADS', '-DUSE_V4_PORTABLE', '-DUSE_V8_PORTABLE'],
}

NORM = 'always-inline,function(sroa,early-cse,loop-simplifycfg,instsimplify,loop-simplify,lcssa),globaldce'
# vector kernels: additionally unroll the short lane loops of the portable classes
NORMV = ('always-inline,function(sroa,early-cse,loop-simplifycfg,instsimplify,loop-simplify,lcssa,'
         'loop-unroll-full,sroa,early-cse,loop-simplifycfg,instsimplify,dce,loop-simplify,lcssa),globaldce')
# unroll only (threshold-free) loops with constant trip count, keep the rest in while form
OPTBASE = ['-std=gnu++11', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-gno-column-info', '-fno-strict-aliasing', '-fno-exceptions',
           '-ffp-contract=off', '-fno-builtin-printf', '-DNDEBUG', '-DOMPI_SKIP_MPICXX', '-DMPICH_SKIP_MPICXX', '-w', '-emit-llvm', '-c']


class Broken(Exception):
    """the analysis could not be carried out (neither held nor violated)"""


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def tool():
    src = os.path.join(VERIF, 'tool', 'irdump.cc')
    h = hashlib.sha1(open(src, 'rb').read()).hexdigest()[:12]
    out = os.path.join(BUILD, f'irdump-{h}')
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.toollock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        cf = subprocess.check_output(['llvm-config-18', '--cxxflags'], text=True).split()
        cf = [c for c in cf if not c.startswith('-std=')]
        lf = subprocess.check_output(['llvm-config-18', '--ldflags'], text=True).split()
        r = sh([CXX, '-O1', '-std=c++17', '-w'] + cf + [src, '-o', out + '.tmp'] + lf + ['-lLLVM-18'])
        if r.returncode:
            raise Broken('cannot build irdump:\n' + r.stdout)
        os.rename(out + '.tmp', out)
    return out


def sources():
    r = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        if '/test' in d[len(REPO):]:
            continue
        for f in fs:
            if f.endswith('.cc') or f.endswith('.c'):
                r.append(os.path.relpath(os.path.join(d, f), REPO))
    return sorted(r)


def tree_hash():
    h = hashlib.sha1()
    for top in ('src', 'deck'):
        fl = []
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            for f in fs:
                if f.rsplit('.', 1)[-1] in ('cc', 'c', 'h', 'hpp', 'inc', 'cxx'):
                    fl.append(os.path.join(d, f))
        for p in sorted(fl):
            h.update(p.encode())
            h.update(open(p, 'rb').read())
    return h.hexdigest()


_th = None


_inc = {}


def _closure(f, seen):
    """files of the tree a source may include (over-approximated by name)"""
    import re
    if f in seen or not os.path.exists(os.path.join(REPO, f)):
        return
    seen.add(f)
    if f not in _inc:
        t = open(os.path.join(REPO, f), errors='replace').read()
        _inc[f] = t, re.findall(r'^[ \t]*#[ \t]*include[ \t]*["<]([^">]+)[">]', t, re.M)
    for x in _inc[f][1]:
        for d in (os.path.dirname(f), 'src', '.'):
            _closure(os.path.normpath(os.path.join(d, x)), seen)


def tu_cache(src, flags):
    """development aid (VPIC_SA_TU=dir): object cache per translation unit, keyed by the text of all files it may include"""
    d = os.environ.get('VPIC_SA_TU')
    if not d:
        return None
    s = set()
    _closure(src, s)
    h = hashlib.sha1(repr((flags, OPTBASE)).encode())
    for x in flags:
        if x.startswith('-DINPUT_DECK='):
            h.update(open(x.split('=', 1)[1], 'rb').read())
    for f in sorted(s):
        h.update(f.encode() + _inc[f][0].encode())
    return os.path.join(d, h.hexdigest())


def compile_one(src, flags, out):
    if os.path.exists(out):
        return None
    tu = tu_cache(src, flags)
    if tu and os.path.exists(tu):
        os.link(tu, out)
        return None
    tmp = out + f'.{os.getpid()}.tmp'
    r = sh([CXX] + OPTBASE + flags + ['-I.', '-Isrc'] + MPI_INC + ['-o', tmp, src], cwd=REPO)
    if r.returncode:
        return f'{src}: {r.stdout[:2000]}'
    if tu:
        os.makedirs(os.path.dirname(tu), exist_ok=True)
        if not os.path.exists(tu):
            os.link(tmp, tu)
    os.rename(tmp, out)
    return None


def bitcode(config, files=None, extra=(), wit=None):
    """compile the given sources (default: all library sources); returns list of .bc"""
    global _th
    if _th is None:
        _th = tree_hash()
    flags = CONFIGS[config] + list(extra)
    fh = hashlib.sha1(repr((flags, OPTBASE)).encode()).hexdigest()[:8]
    d = os.path.join(BUILD, 'bc', _th[:16], config + '-' + fh)
    os.makedirs(d, exist_ok=True)
    files = list(files or sources())
    if wit:
        files.append('deck/wrapper.cc')
        flags = flags + [f'-DINPUT_DECK={wit}', '-Ideck']
        wh = hashlib.sha1(open(wit, 'rb').read()).hexdigest()[:8]
    outs = [os.path.join(d, f.replace('/', '_') + '.bc') for f in files]
    if wit:
        outs[-1] = outs[-1].replace('.bc', f'-{wh}.bc')
        flg = [CONFIGS[config] + list(extra)] * (len(files) - 1) + [flags]
    else:
        flg = [flags] * len(files)
    with ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(lambda p: compile_one(p[0], p[2], p[1]), zip(files, outs, flg)) if e]
    if errs:
        raise Broken('compile failed:\n' + errs[0])
    gc_cache()
    return outs


def gc_cache():
    top = os.path.join(BUILD, 'bc')
    ds = [os.path.join(top, x) for x in os.listdir(top)]
    ds = sorted((x for x in ds if os.path.exists(x)), key=lambda x: os.path.getmtime(x) if os.path.exists(x) else 0)
    for x in ds[:-int(os.environ.get('VPIC_SA_TREES', '4'))]:
        shutil.rmtree(x, ignore_errors=True)


def api_file():
    return os.path.join(VERIF, 'lib', 'api.txt')


def module(config='ref', files=None, norm=NORM, keep=None, only=None, extra=(), inline=True, wit=None):
    """normalised, loaded module. keep: None -> api list, else iterable of names"""
    bcs = bitcode(config, files, extra, wit)
    t = tool()
    if keep is None:
        keepf = api_file()
        kh = open(keepf).read()
    else:
        kh = '\n'.join(sorted(keep)) + '\n'
    hh = hashlib.sha1(repr((bcs, norm, kh, only, inline, os.path.basename(t))).encode()).hexdigest()[:12]
    out = os.path.join(os.path.dirname(bcs[0]), f'm-{hh}.json')
    if not os.path.exists(out):
        kf = out + f'.{os.getpid()}.keep'
        open(kf, 'w').write(kh)
        tmp = out + f'.{os.getpid()}.tmp'
        cmd = [t, '-o', tmp, '-keep', kf, '-passes', norm]
        if only:
            cmd += ['-only', ','.join(only)]
        if not inline:
            cmd += ['-noinline']
        r = sh(cmd + bcs)
        os.unlink(kf)
        if r.returncode:
            raise Broken('irdump failed:\n' + r.stdout[:3000])
        os.rename(tmp, out)
    m = ir.Module(out)
    m.config = config
    m.nunits = len(bcs)
    return m


_enum = {}


def enum_const(mod, name):
    """value of an enumerator (or macro) declared in the project's headers"""
    if name not in _enum:
        _enum[name] = _enum_const(name)
    return _enum[name]


def _enum_const(name):
    import re
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs:
            if f.endswith(('.h', '.hh', '.hxx')):
                x = re.search(r'\b%s(?:\s*=\s*|\s+)\(?(-?\d+)' % name, open(os.path.join(d, f), errors='replace').read())
                if x:
                    return int(x.group(1))
    raise Broken(f'enumerator {name} not found')
