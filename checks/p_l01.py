import lifean, ckan, proj
from bndan import run_tasks

EXPLAIN = ('the destructor of a simulation is evaluated as an ordered value graph on simulations the constructors of the repository have built and on ones the restore has built, with a heap that knows size, kind and state of every block; main, the services, the command-line and the allocation helpers are evaluated against recorded calls and enumerated arguments.')
RULES = {
    'freed': 'destroying a simulation frees every block of it exactly once, by the kind of free that fits',
    'unregistered': 'destroying a simulation leaves nothing of it registered for checkpoints, and the services registered',
    'program': 'a run boots, builds or restores, modifies, advances until done, finalizes, destroys and halts, in this order; each rank restores the file its checkpoint wrote',
    'services': 'services boot and halt in an order in which each finds what it needs; uptime is the mean over the ranks since boot',
    'cmdline': 'stripping options removes exactly the options and their values, keeps the order of the rest and yields the last value or the default; old options are refused',
    'memory': 'allocations are large enough, aligned, inside their block, freed as allocated; lack of memory and invalid alignments are refused',
}
PROG = ['deck/main.cc', 'src/util/boot.cc', 'src/util/util_base.cc', 'src/util/pipelines/pipelines_thread.cc', 'src/util/pipelines/pipelines_serial.cc', 'src/util/pipelines/pipelines_helper.cc']


def check(ctx):
    cfgs = ['ref', 'v8omp'] if not ctx.thorough else ['ref', 'v4sse', 'v8avx2', 'v8omp', 'v16portable']
    mods = {c: ctx.mod(c, norm=proj.NORMV) for c in cfgs}
    prog = {c: proj.module(c, files=PROG, norm=proj.NORMV) for c in cfgs}
    T = []
    for c in cfgs:
        for s in ckan.SHAPES:
            for r in (False, True):
                T.append(('destroy', c, s, r))
        T += [('cmdline', c, 3 if not ctx.thorough else 5), ('memory', c), ('services', c), ('program', c)]

    def one(t):
        res = []
        getattr(lifean, t[0])((mods if t[0] == 'destroy' else prog)[t[1]], t[1], lambda *a: res.append(a), *t[2:])
        return res
    for c in cfgs:
        for n in mods[c]._raw:
            if 'delete_' in n or n.startswith('_ZN15vpic_simulationD'):
                ctx.saw(n)
        for n in prog[c]._raw:
            ctx.saw(n)
    run_tasks(ctx, T, one)
    for r, n in (('freed', 40), ('unregistered', 40), ('program', 40), ('services', 8), ('cmdline', 30), ('memory', 30)):
        ctx.floor(r, n)
