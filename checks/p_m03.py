import mpan, proj
from bndan import run_tasks

EXPLAIN = ('every function of the message layer is evaluated as an ordered value graph with stand-ins for the MPI library that record buffer, count, type, peer, tag, communicator and request; the port buffers go through random histories of growth, use and invalid calls, compared with a reference of capacities and contents.')
RULES = {
    'call': 'each operation is exactly the MPI call it stands for: buffers, counts, types, operation, root, peer, tag and communicator',
    'error': 'an error the MPI library reports never goes unnoticed',
    'refused': 'invalid arguments are refused',
    'ports': 'port buffers are large enough, aligned, keep their contents when they grow, are freed once; transfers use the buffer, size and request of their port; messages of another size, other ports and too large transfers are refused',
    'boot': 'booting duplicates the world, takes rank and size from it and registers it; halting undoes this',
}


def check(ctx):
    cfgs = ['ref', 'v8omp'] if not ctx.thorough else ['ref', 'v4sse', 'v8avx2', 'v8omp', 'v16portable']
    mods = {c: ctx.mod(c, norm=proj.NORMV) for c in cfgs}
    T = []
    for c in cfgs:
        for r, n in ((0, 1), (0, 3), (1, 3), (2, 3)):
            T.append(('coll', c, r, n))
            for s in range(4 if not ctx.thorough else 24):
                T.append(('ports', c, r, n, s))
        T.append(('boot', c))

    def one(t):
        res = []
        getattr(mpan, t[0])(mods[t[1]], t[1], lambda *a: res.append(a), *t[2:])
        return res
    for c in cfgs:
        for n in mods[c]._raw:
            if n.startswith(('mp_', '_ZN9DMPPolicy')):
                ctx.saw(n)
    run_tasks(ctx, T, one)
    for r, n in (('call', 150), ('error', 150), ('refused', 150), ('ports', 250), ('boot', 4)):
        ctx.floor(r, n)
