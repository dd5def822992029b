import proj, colan
from fractions import Fraction as Q
from bndan import run_tasks

EXPLAIN = ('collision operators are built by their constructors and applied as ordered value graphs on simulations with chosen voxel occupations, weights and pipelines; random generators return chosen values (extremes included), rate and collision functions of the generic models are events. '
           'Candidate pairs, probabilities and updated particles are compared with the rule of the operator; for the momentum transfers momentum and energy balance are exact identities over the field and the scattering angle is compared with the one of the drawn impact parameter or deviate.')
RULES = {
    'gate': 'an operator acts in the steps its interval selects, on species sorted in this step',
    'pair': 'the candidate pairs (particles) are in one voxel, of the right species and as many as prescribed',
    'rate': 'a candidate collides exactly when the random number is below its collision probability',
    'update': 'the lighter particle is always updated, the heavier one with the ratio of the weights; nothing else changes',
    'momentum': 'equal-weight collisions conserve momentum',
    'energy': 'the relative momentum keeps its magnitude',
    'angle': 'the scattering angle is the one of the model',
    'stream': 'random numbers come from the generator of the pipeline that owns the voxel',
    'langevin': 'u becomes decay u + drive n with the fluctuation-dissipation relation',
}


def check(ctx):
    cfgs = ['ref', 'v8omp'] if ctx.thorough else ['ref']
    mods = {c: ctx.mod(c, norm=proj.NORMV) for c in cfgs}
    T = []
    o2 = [[(5, 3), (6, 1), (9, 4)], [(5, 2), (6, 5), (10, 2)]]
    big = [[(5, 4), (9, 1), (10, 3)], [(5, 3), (10, 5)]]
    for c in cfgs:
        for np_, late in ((1, False), (2, True), (3, False)):
            for same in (False, True):
                T.append(('binary', c, np_, late, same, Q(1), 2, o2, Q(1, 3), False))
                T.append(('binary', c, np_, late, same, Q(5, 2), 1, big, Q(1), True))
        for same in (False, True):
            T.append(('binary', c, 2, False, same, Q(30), 3, big, Q(7), False))
            T.append(('binary', c, 1, False, same, Q(1, 4), 1, o2, Q(7), False))
        for n in (0, 1, 2, 7, 8):
            for np_, late in ((1, False), (2, True), (3, False)):
                T.append(('unary', c, np_, late, 2 if n % 2 else 1, n))
                T.append(('langevin', c, np_, late, n, 2 if n % 2 else 3))
        T.append(('binary', c, 17, True, False, Q(1), 1, [[(v, 2) for v in (5, 6, 9, 10)], [(v, 1) for v in (5, 6, 9, 10)]], Q(1), False))
        T.append(('unary', c, 17, False, 1, 40))
        T.append(('langevin', c, 17, True, 40, 2))
        T.append(('gates', c))
        ta = [[(5, 4), (6, 2), (9, 5), (10, 1)], [(5, 3), (6, 2), (9, 7), (10, 3)]]
        tb = [[(5, 3), (6, 6), (9, 7), (10, 2)], [(5, 5), (6, 1), (10, 2)]]
        uneq = lambda s, i: Q(2 + (3 * i + s) % 4, 3)
        for same in (False, True):
            for np_, late in ((1, False), (3, True)):
                for o in (ta, tb):
                    T.append(('ta', c, np_, late, same, o, None, Q(3, 8)))
            for fr in (Q(1, 8), Q(3, 8), Q(11, 16), Q(15, 16)):
                T.append(('ta', c, 2, False, same, ta, uneq, fr))
            for cv in (Q(1, 400), Q(40), Q(2, 5)):
                T.append(('ta', c, 2, False, same, tb, None, Q(5, 8), 2, cv))
        for kind in ('hard_sphere', 'large_angle_coulomb'):
            for k in range(4 if not ctx.thorough else 12):
                for t in (1, 2, 3):
                    T.append(('elastic', c, kind, False, t, k))
                T.append(('elastic', c, kind, True, 0, k))
            T.append(('elastic', c, kind, True, 0, 9, True))

    def one(t):
        res = []
        getattr(colan, t[0])(mods[t[1]], t[1], lambda *a: res.append(a), *t[2:])
        return res
    for f in ('binary_pipeline_scalar', 'unary_pipeline_scalar', 'langevin_pipeline_scalar', 'takizuka_abe_pipeline_scalar', 'hard_sphere_collision', 'large_angle_coulomb_collision', 'hard_sphere_fluid_collision', 'large_angle_coulomb_fluid_collision'):
        ctx.saw(f)
    run_tasks(ctx, T, one)
    for r, n in (('gate', 60), ('pair', 40), ('rate', 60), ('energy', 40), ('momentum', 40), ('angle', 40), ('langevin', 12)):
        ctx.floor(r, n)
