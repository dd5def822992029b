#!/usr/bin/env python3
"""mutate.py OUT.jsonl PER_FILE SEED [file-regex]: one-token source mutants of the analysed files, each
given to the checks of that file in a scratch copy (VPIC_REPO); development aid, no check uses it"""
import sys, os, re, random, subprocess, json, shutil, time
from concurrent.futures import ThreadPoolExecutor
out, per, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
filt = re.compile(sys.argv[4]) if len(sys.argv) > 4 else None
REPO = '/repo'
os.environ.setdefault('VPIC_SA_TU', '/tmp/vpic_tu')
os.environ.setdefault('VPIC_SA_TREES', '24')
MAP = [
    (r'util/v\d+/', 'V01'),
    (r'util/rng/', 'Q01'),
    (r'vpic/(advance|initialize)\.cc', 'T01'),
    (r'vpic/misc\.cc', 'J01'),
    (r'field_advance/standard/local\.cc', 'F03'),
    (r'field_advance/standard/remote\.cc', 'M01 M02'),
    (r'field_advance/standard/sfa\.cc', 'S01 R01'),
    (r'field_advance/standard/.*(energy|rms)', 'D01 W01 U01'),
    (r'field_advance/standard/.*\.(cc|h)', 'F01 W03 F02 W01 W02 U01'),
    (r'species_advance/standard/.*sort_p', 'B02'),
    (r'species_advance/standard/.*move_p', 'K03 C01'),
    (r'species_advance/standard/.*rho_p', 'C01'),
    (r'species_advance/standard/.*advance_p', 'K01 W04 K02 W01'),
    (r'species_advance/standard/.*_p', 'K01 W04 W01 U01'),
    (r'sf_interface/.*interp', 'I01'),
    (r'sf_interface/.*(hydro|acc).*', 'A01 M02 R01'),
    (r'sf_interface/', 'A01'),
    (r'boundary/boundary_p\.cc', 'B01'),
    (r'grid/(partition|ops|grid_comm|distribute)', 'G01 M01'),
    (r'util/checkpt/checkpt\.cc', 'R01'),
    (r'collision/', 'X01 R01'),
    (r'material/', 'S01 R01'),
    (r'(boundary|emitter)/', 'E01 R01'),
    (r'species_advance/species_advance\.cc|grid/grid_structors|util/mp/DMPPolicy\.h|util/rng/rng_pool|vpic/vpic\.cc', 'R01 M01'),
]
ex = re.compile(os.environ.get('MUT_ONLY', '.'))
OPS = [
    (r'(?<![-+\w.eE])\+(?![+=\d]*\d?=?\+)(?=\s|\w|\()', '-'), (r'(?<=\s)-(?=\s)', '+'), (r'(?<=\s)\*(?=\s)', '+'),
    (r'\+=', '-='), (r'\+=', '='), (r'(?<=\w)\+1\b', ''), (r'(?<=[\s(])<(?=\s*\w)', '<='), (r'<=', '<'), (r'>=', '>'), (r'==', '!='), (r'&&', '||'),
    (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\b2\b', '1'), (r'\bnx\b', 'ny'), (r'\bny\b', 'nz'), (r'\bnz\b', 'nx'),
    (r'\bcbx\b', 'cby'), (r'\bcbz\b', 'cby'), (r'\bex\b', 'ey'), (r'\bez\b', 'ey'), (r'\bjfy\b', 'jfz'), (r'\bux\b', 'uy'), (r'\buz\b', 'uy'), (r'\bdx\b', 'dy'), (r'\bdz\b', 'dy'),
    (r'##Y\b', '##Z'), (r'##Z\b', '##Y'), (r'\brhof\b', 'rhob'), (r'\bdecay\b', 'drive'), (r'\bpy\b', 'px'), (r'\bpz\b', 'py'),
    (r'\bsbuf\b', 'rbuf'), (r'\bnp\b', 'max_np'), (r'_p0\b', '_p1'), (r'\bv04\b', 'v05'),
]


def code_lines(t):
    """line indices that hold code"""
    t2 = re.sub(r'/\*.*?\*/', lambda m: re.sub(r'[^\n]', ' ', m[0]), t, flags=re.S)
    t2 = re.sub(r'//[^\n]*', lambda m: ' ' * len(m[0]), t2)
    return t2.split('\n')


def mutants(f, rnd):
    t = open(f'{REPO}/{f}').read()
    src, code = t.split('\n'), code_lines(t)
    c = []
    for i, l in enumerate(code):
        if not l.strip() or l.lstrip().startswith(('#include', '#if', '#else', '#endif')) or 'ERROR' in l or 'WARNING' in l:
            continue
        for p, r in OPS:
            for m in re.finditer(p, l):
                c.append((i, m.start(), m.end(), r))
        if l.rstrip().endswith(';') and '=' in l and not re.match(r'\s*(const|float|int|DECLARE|v\d+float|v\d+int|static|for)', l) and l.count('(') == l.count(')'):
            c.append((i, 0, len(l.rstrip()), ';'))
    rnd.shuffle(c)
    seen = set()
    for i, a, b, r in c:
        if i in seen:
            continue
        seen.add(i)
        n = list(src)
        n[i] = src[i][:a] + r + src[i][b:]
        if n[i] != src[i]:
            yield i, src[i], n[i], '\n'.join(n)


def work(job):
    f, i, a, b, text, checks, k = job
    d = f'/tmp/mut/{k}'
    subprocess.run(['mkdir', '-p', d])
    for x in ('src', 'deck'):
        subprocess.run(['cp', '-a', f'{REPO}/{x}', d])
    open(f'{d}/{f}', 'w').write(text)
    env = dict(os.environ, VPIC_REPO=d, VERIF_JOBS='3', VERIF_TIER='quick')
    res = {}
    t0 = time.time()
    for c in checks.split():
        try:
            p = subprocess.run(['python3', os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/checks/run.py', c], env=env, capture_output=True, text=True, timeout=900)
            rc, o = p.returncode, p.stdout + p.stderr
        except subprocess.TimeoutExpired:
            rc, o = -1, ''
        res[c] = rc
        if rc == 1:
            break
        if 'error:' in o and rc not in (0, 1):
            res[c] = 'compile'
            break
        if rc != 0 or 'UNDECIDED' in o:
            res[c + '_msg'] = o[-300:]
    shutil.rmtree(d)
    with open(out, 'a') as fo:
        v = [x for x in res.values() if not isinstance(x, str) or x == 'compile']
        verdict = 'killed' if 1 in v else 'compile' if 'compile' in v else 'noanswer' if any(x not in (0,) for x in v) else 'SURVIVED'
        fo.write(json.dumps(dict(file=f, line=i + 1, old=a.strip(), new=b.strip(), verdict=verdict, res=res, s=round(time.time() - t0))) + '\n')


jobs = []
rnd = random.Random(seed)
files = subprocess.check_output(['git', '-C', REPO, 'ls-files', 'src'], text=True).split()
for f in files:
    if '/test' in f or not f.endswith(('.cc', '.h')) or filt and not filt.search(f):
        continue
    for p, c in MAP:
        if re.search(p, f):
            for n, (i, a, b, t) in enumerate(mutants(f, rnd)):
                if n >= per:
                    break
                jobs.append((f, i, a, b, t, c, f'{seed}_{len(jobs)}'))
            break
rnd.shuffle(jobs)
print(len(jobs), 'mutants')
with ThreadPoolExecutor(int(os.environ.get('MUT_W', '3'))) as ex_:
    list(ex_.map(work, jobs))
