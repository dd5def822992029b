import dumpan, proj
from bndan import run_tasks
from vg import Graph

EXPLAIN = ('every dump function of the simulation is evaluated as an ordered value graph on simulations built by the repository\'s constructors, with an abstract file system that records names, modes, the exact sequence of bytes and the printed text; '
           'the files are compared item by item with the layout of the format (header, array header, data in order), the simulation before and after the dump cell by cell.')
RULES = {
    'content': 'a binary dump holds the right header, array header and data: every item, width, order and value; one file of the right name per rank, closed, simulation unchanged',
    'text': 'a text dump (energies, species, materials, global header) holds every entry in order; only rank 0 writes, all ranks take part in collective sums',
    'refused': 'bad strides, unknown species, missing names and files that cannot be opened or completed are refused',
}
ALL = (1 << 32) - 1


def cases(thorough):
    T = []
    A = dict(dims=(2, 3, 1), rank=1, nworld=2, npipe=1)
    B = dict(dims=(1, 2, 3), rank=0, nworld=1, npipe=1, nsp=1, nmat=1, step=0)
    C = dict(dims=(4, 6, 2), rank=3, nworld=5, npipe=2, step=123456)
    for s in (A, B, C):
        T.append(('binary', 'dump_grid', s, [()]))
        T.append(('binary', 'dump_fields', s, [(t, o) for t in (0, 1) for o in (0, 1)]))
        T.append(('binary', 'dump_hydro', s, [(k, t, o) for k in range(s.get('nsp', 2)) for t in (0, 1) for o in (0, 1)]))
        T.append(('binary', 'dump_particles', s, [(k, t) for k in range(s.get('nsp', 2)) for t in (0, 1)]))
    T.append(('binary', 'dump_particles', dict(A, np=0), [(1, 1)]))
    for n in (32767, 32768, 32769) + ((65536, 65537) if thorough else ()):
        T.append(('binary', 'dump_particles', dict(A, np=n, nsp=1), [(0, 1)]))
    masks = [ALL, 0, 1, 0x7, 1 << 23, 0xf0f, 0x00ff0000, 0xffffff, 0x123456]
    for m in masks:
        T.append(('binary', 'field_dump', C, [(m, (1, 1, 1), 0, 0, -1)]))
        m2 = m if m == ALL else m & 0x3fff
        T.append(('binary', 'hydro_dump', C, [(1, m2, (1, 1, 1), 0, 0, -1)]))
    D = dict(dims=(6, 4, 3), rank=0, nworld=2, npipe=1)
    st = [(C, (1, 1, 1)), (C, (2, 2, 2)), (C, (1, 2, 1)), (C, (2, 1, 1)), (C, (1, 1, 2)), (C, (4, 3, 1)), (C, (2, 6, 1)), (C, (4, 6, 2)), (D, (3, 4, 1)), (D, (2, 2, 3)), (D, (6, 1, 3)), (D, (1, 4, 3)), (A, (2, 3, 1)), (B, (1, 2, 3)), (B, (1, 1, 1))]
    for s, x in st:
        for fmt in (0, 1):
            T.append(('binary', 'field_dump', s, [(0x8a5, x, fmt, 0, -1), (0x8a5, x, fmt, 1, 9)]))
            T.append(('binary', 'hydro_dump', s, [(0, 0x2a5, x, fmt, 0, -1), (0, 0x2a5, x, fmt, 1, 9)]))
    for w, c in (('dump_fields', ((1, 1), (1, 0))), ('dump_fields', ((0, 0), (1, 1))), ('dump_hydro', ((1, 1, 1), (0, 0, 0))), ('dump_hydro', ((0, 1, 0), (1, 1, 0))), ('dump_particles', ((0, 1), (1, 0))),
                 ('field_dump', ((0x8a5, (2, 3, 1), 0, 1, 7), (0x15a, (1, 2, 1), 0, 0, -1))), ('field_dump', ((ALL, (1, 1, 1), 1, 0, -1), (0x15a, (4, 2, 2), 1, 1, 3))),
                 ('hydro_dump', ((1, 0x2a5, (2, 3, 1), 0, 1, 7), (0, 0x15a, (1, 2, 1), 0, 0, -1))), ('hydro_dump', ((0, ALL, (1, 1, 1), 1, 0, -1), (1, 0x15a, (4, 2, 2), 1, 1, 3)))):
        T.append(('binary', w, C, [c[1]], c[0]))
    for s in (A, B, C, dict(A, rank=0), dict(C, rank=0, nsp=3, nmat=3), dict(A, rank=0, nsp=0)):
        T.append(('text', 'dump_energies', s, [(0,), (1,)]))
        T.append(('text', 'dump_species', s, [()]))
        T.append(('text', 'dump_materials', s, [()]))
        T.append(('text', 'global_header', s, [(ALL, ALL), (0x8a5, 0x191, ALL), (0, 0), (0x888800, 0x88, 0, 1)]))
    return T


def check(ctx):
    cfgs = ['ref', 'v8omp'] if not ctx.thorough else ['ref', 'v4sse', 'v8avx2', 'v8omp', 'v16portable']
    mods = {c: ctx.mod(c, norm=proj.NORMV) for c in cfgs}

    def one(t):
        res = []
        R = lambda *a: res.append(a)
        if t[1] == 'refused':
            dumpan.refused(mods[t[0]], t[0], R, Graph())
        else:
            getattr(dumpan, t[1])(mods[t[0]], t[0], R, t[2], t[3], t[4], Graph(), *t[5:])
        return res
    for n in ('dump_energies', 'dump_species', 'dump_materials', 'dump_grid', 'dump_fields', 'dump_hydro', 'dump_particles', 'field_dump', 'hydro_dump', 'global_header', 'print_hashed_comment', 'StandardIOPolicy::open', 'StandardIOPolicy::close', 'StandardIOPolicy::write'):
        ctx.saw(n)
    run_tasks(ctx, [(c,) + t for c in cfgs for t in cases(ctx.thorough)] + [(c, 'refused') for c in cfgs], one)
    for r, n in (('content', 150), ('text', 60), ('refused', 80)):
        ctx.floor(r, n)
