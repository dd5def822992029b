import bndan
EXPLAIN = ('Each of the nine functions that apply the local boundary conditions (ghost tangential B, ghost normal E, ghost div-B error, tangential E, normal B, div-E error, free current, free charge, bound charge) is turned into '
           'a value graph with ordered memory effects and evaluated, for a family of grid shapes and of boundary placements (every condition on every face alone, on all faces, mixtures, faces shared with another domain, invalid codes), '
           'on field arrays whose entries are algebraically independent. The set of locations changed and the expressions left there are compared with one table of planes and image rules.')
RULES = {'local-bc': 'memory after local_<f>(f,g) == image rule of the boundary condition on exactly that boundary plane; unknown codes abort'}


def check(ctx):
    bndan.run(ctx, bndan.local_bc, bndan.LOCAL, None)
    ctx.floor('local-bc', 270)
