import bndan
EXPLAIN = ('begin/end_remote_ghost_{tang_b,norm_e,div_b} are evaluated as ordered value graphs against a recording stand-in of the port layer, for families of grid shapes and sets of faces shared with another domain: which field values are '
           'packed in which order, that every byte sent was written and fits, that the receiver unpacks the values its partner packed into the ghost plane of the matching face (interpolated for different cell sizes), and that sizes, begins and ends pair up. '
           'The port functions themselves (begin_recv_port, ..., end_send_port) are evaluated for every direction and kind of face: buffer index, partner rank and tag of the message-passing calls.')
RULES = {'layout': 'message in a direction == exactly the wanted plane values (plus cell size)', 'ghost': 'ghost plane after the exchange == specification, nothing else changes',
         'protocol': 'sizes and begin/end calls pair up on every shared face', 'port': 'message-passing calls of the port layer == table'}


def check(ctx):
    bndan.run(ctx, bndan.ghosts, list(bndan.GH), None)
    bndan.run(ctx, bndan.ports, [None], None)
    ctx.floor('layout', 15)
    ctx.floor('ghost', 15)
    ctx.floor('protocol', 15)
    ctx.floor('port', 25)
