import thran, proj
from bndan import run_tasks

EXPLAIN = ('boot, dispatch, wait and halt of both pipeline dispatchers and the loop of a worker are evaluated as ordered value graphs against stand-ins for the thread library: the host against workers that take their jobs at once, late and in any order, the worker against a host that wakes it for a job, for nothing and for the end; every record of a worker written by the host needs its lock.')
RULES = {
    'boot': 'booting starts one ready worker per pipeline (one less if the host takes part), each with its own lock and condition made before, and registers the dispatcher',
    'jobs': 'a dispatch followed by a wait runs every pipeline exactly once with its own arguments, number and count; the wait ends when all are done and not before, whatever the speed of the workers',
    'worker': 'a worker runs each job it is given once, under its lock, reports it afterwards, sleeps in between, ignores spurious wakeups and ends when told with its lock released',
    'halt': 'halting ends and joins every worker and destroys its lock and condition afterwards',
    'refused': 'calls before boot, while busy, of another thread and invalid counts are refused',
    'error': 'a failure of the thread library never goes unnoticed',
}


def check(ctx):
    cfgs = ['ref', 'v16portable'] if not ctx.thorough else ['ref', 'v4sse', 'v8avx2', 'v16portable']
    mods = {c: ctx.mod(c, norm=proj.NORMV) for c in cfgs + ['v8omp']}
    T = [('omp', 'v8omp')]
    for c in cfgs:
        for n, h in ((1, 1), (2, 1), (3, 1), (1, 0), (3, 0), (5, 1)):
            for eager in (True, False):
                for s in range(1 if eager else 4 if not ctx.thorough else 40):
                    T.append(('rounds', c, 'thread', n, h, eager, s))
        for n in (1, 2, 5):
            T.append(('rounds', c, 'serial', n, 1, True, 0))
        for a in (('end',), ('job', 'end'), ('nothing', 'job', 'nothing', 'nothing', 'job', 'job', 'end'), ('nofunc', 'end'), ('noflag', 'job', 'end'), ('nothing', 'end')):
            T.append(('worker', c, a))
        T.append(('limits', c))

    def one(t):
        res = []
        getattr(thran, t[0])(mods[t[1]], t[1], lambda *a: res.append(a), *t[2:])
        return res
    for c in mods:
        for n in mods[c]._raw:
            if any(x in n for x in ('thread_boot', 'thread_halt', 'thread_dispatch', 'thread_wait', 'pipeline_mgr', 'serial_', 'parallel_execute', 'omp_boot')):
                ctx.saw(n)
    run_tasks(ctx, T, one)
    for r, n in (('boot', 60), ('jobs', 200), ('worker', 10), ('halt', 30), ('refused', 400), ('error', 10)):
        ctx.floor(r, n)
