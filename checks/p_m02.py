import bndan
EXPLAIN = ('synchronize_tang_e_norm_b, synchronize_jf, synchronize_rho and synchronize_hydro_array are evaluated as ordered value graphs against a recording stand-in of the port layer, for families of grid shapes, of shared faces and of local boundary conditions: '
           'what is sent, how the received plane is combined with the own one (average; cell-size weighted sum), that local boundary adjustments come first, that the three axis passes are ordered so that edges and corners shared by several faces end up right '
           '(domain as its own neighbour on all sides), that the hydro blocks are reduced before, and that the returned discrepancy is the global sum of squares.')
RULES = {'layout': 'message == exactly the shared plane values', 'shared': 'shared plane after the exchange == combination rule, nothing else changes',
         'protocol': 'sizes and begin/end calls pair up', 'all-axes': 'result of all three passes == rule applied axis after axis', 'local': 'local boundary conditions are applied before the planes are exchanged'}


def check(ctx):
    bndan.run(ctx, bndan.sync, list(bndan.SY), None)
    for r in RULES:
        ctx.floor(r, 20)
