import sfan, sfrun
EXPLAIN = ('The clear, reduce and unload sweeps of the current accumulators and the clear and reduce sweeps of the hydro arrays are evaluated as ordered value graphs - host function, dispatched pipelines (scalar and vector variants) and straggler part bound together - for families of grid shapes, pipeline counts and the two extreme schedules '
           '(pipelines before or after the host part), on arrays whose entries are algebraically independent; every location written is compared with a declarative specification.')
RULES = {'whole-sweep': 'memory / results after the whole sweep == specification, nothing else changes', 'waited': 'every dispatched pipeline is waited for before the function returns'}


def check(ctx):
    sfrun.sweeps(ctx, [n for n in sfan.CASES if n != 'load_interpolator_array'])
