"""sort_p: whole particle sorts (serial and threaded) as ordered value graphs over families of cell
occupations, particle data generic"""
import random
import vg, proj
from vg import P, Graph
from kern import sgn
from whole import WM, Whole, Heap
from absev import Aborted
from proj import Broken

FIELDS = ('dx', 'dy', 'dz', 'i', 'ux', 'uy', 'uz', 'w')


class SM(WM):
    def __init__(self, g, mod, dims, seed, npipe, voxels, oop):
        WM.__init__(self, g, mod, dims, seed, npipe)
        S, h = self.S, self.rnd.h
        self.statics(mod)
        self.heap = Heap(self)
        sp, pt = S['species'], S['particle']
        self.sp = h(806, 1)
        self.step = h(807, 3)
        self.mem[(self.gp + self.gs.off('step')) % P] = self.step
        self.again(voxels, oop)

    def again(self, voxels, oop):
        """(another) species, in the same process"""
        S, h = self.S, self.rnd.h
        sp, pt = S['species'], S['particle']
        n = len(voxels)
        mx = n + 3
        self.pb = self.heap.alloc(mx * pt.size, 'particles', 128)
        self.part = self.heap.alloc(4 * (self.nv + 1), 'partition', 128)
        for k, v in dict(np=n, max_np=mx, p=self.pb, g=self.gp, partition=self.part, sort_out_of_place=oop, sort_interval=3, last_sorted=0).items():
            self.mem[(self.sp + sp.off(k)) % P] = v
        self.init = []
        for i, v in enumerate(voxels):
            t = [h(808, i, k) for k in range(8)]
            t[3] = v
            for k, nm in enumerate(FIELDS):
                a = (self.pb + i * pt.size + pt.off(nm)) % P
                self.mem[a] = t[k]
                self.fty[a] = k != 3
            self.init.append(tuple(t))

    def geti(self, a):
        v = self.load(a)
        return self.pit()._bits(v) if self.fty.get(a % P) else v

    def getp(self, a):
        return tuple(self.geti(a + self.S['particle'].off(nm)) if nm == 'i' else self.load(a + self.S['particle'].off(nm)) for nm in FIELDS)


def cases(thorough):
    rnd = random.Random(3)
    out = []
    for dims in ((3, 2, 2), (1, 1, 1), (4, 1, 3)) + (((2, 5, 1), (1, 1, 6)) if thorough else ()):
        cells = [x + (dims[0] + 2) * (y + (dims[1] + 2) * z) for z in range(1, dims[2] + 1) for y in range(1, dims[1] + 1) for x in range(1, dims[0] + 1)]
        for np_, kind in ((0, 'any'), (1, 'last'), (5, 'any'), (23, 'any'), (24, 'one'), (17, 'reverse')):
            if kind == 'one':
                v = [rnd.choice(cells)] * np_
            elif kind == 'last':
                v = [cells[-1]] * np_
            else:
                v = [rnd.choice(cells) for _ in range(np_)]
                if kind == 'reverse':
                    v.sort(reverse=True)
            for npipe in (1, 2, 3, 7) + ((17,) if np_ == 23 else ()):
                out.append((dims, [v], npipe, rnd.randrange(2), rnd.randrange(2)))
        # several sorts in one process
        for npipe in (1, 3, 16):
            out.append((dims, [[rnd.choice(cells) for _ in range(n)] for n in (2, 3, 0, 6, 12, 20, 25, 30, 7, 40)], npipe, rnd.randrange(2), rnd.randrange(2)))
    return out


def check(mod, cfg, R, thorough=False):
    f = mod.func('sort_p')
    if f is None:
        raise Broken('sort_p not found')
    g = Graph()
    bad = dict.fromkeys(('permutation', 'order', 'partition', 'bookkeeping', 'memory', 'waited'))

    def note(k, s):
        bad[k] = bad[k] or s
    def one(m, w, vox, npipe, tag):
        try:
            w.run(f, [m.sp])
        except Aborted:
            note('permutation', f'refuses valid particles {tag}')
            return
        S = m.S
        L = lambda k: m.load(m.sp + S['species'].off(k))
        for i in w.issues:
            note('waited', f'{i} {tag}')
        o = m.heap.overrun(w.ab.log)
        for i in m.heap.issues + ([o[0]] if o else []):
            note('memory', f'{i} {tag}')
        pb, part = L('p'), L('partition')
        if sgn(L('np')) != len(vox) or L('last_sorted') != m.step or L('g') != m.gp:
            note('bookkeeping', f'particle number or sort time are wrong {tag}')
        if m.heap.blocks.get(pb, (0,))[0] < S['particle'].size * sgn(L('max_np')) or pb in m.heap.free:
            note('memory', f'the particle array is smaller than its capacity or was freed {tag}')
        if part in m.heap.free or m.heap.blocks.get(part, (0,))[0] < 4 * (m.nv + 1):
            note('memory', f'the partition array is gone {tag}')
        have = [m.getp(pb + i * S['particle'].size) for i in range(len(vox))]
        if sorted(have) != sorted(m.init):
            note('permutation', f'the sorted list is not a permutation of the particles {tag}')
        vs = [sgn(t[3]) for t in have]
        if vs != sorted(vs):
            note('order', f'the particles are not in voxel order: {vs[:12]} {tag}')
        for v in range(m.nv):
            p = sgn(m.load(part + 4 * v))
            want = sum(1 for x in vox if x < v)
            if p != want:
                note('partition', f'partition[{v}] is {p if abs(p) < 1 << 30 else "not set"} instead of {want} {tag}')
                break

    for dims, seq, npipe, oop, late in cases(thorough):
        for oop in ((0, 1) if 'sse' in cfg else (oop,)):
            m = SM(g, mod, dims, 11, npipe, seq[0], oop)
            for k, vox in enumerate(seq):
                if k:
                    m.again(vox, oop)
                one(m, Whole(mod, m, late, m.heap.stub, 1 << 12), vox, npipe,
                    f'({len(vox)} particles, grid {dims}, {npipe} pipelines{", out of place" if oop else ""}{f", sort {k + 1}" if k else ""})')
    for k, b in bad.items():
        R('sort', k, f'sort_p/{cfg}', b is None, f'{f.file}:{f.line}', b or '')
