"""Reading of netlists (spec/Ipc.tla); lengths in millionths of the file's unit."""
import os
import shutil
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from obs import *
from gerber import ipc356 as lib
from gerber.render.render import GerberContext

M = 1000000


class Recorder(GerberContext):
    """a context that notes the test records it is given"""
    def __init__(self):
        super(Recorder, self).__init__()
        self.seen = []

    def _render_test_record(self, primitive, color):
        self.seen.append([n(primitive.position[0]), n(primitive.position[1]), primitive.net_name])


def n(v):
    return q(v, M)


def opt(r, a, s=M):
    v = getattr(r, a, None)
    return [] if v is None else [q(v, s) if s == M else int(round(v * s))]


def st(r):
    k = type(r).__name__
    if k == 'IPC356_Comment':
        return {'c': 'com', 't': r.comment}
    if k == 'IPC356_Parameter':
        return {'c': 'par', 'p': r.parameter, 'v': r.value}
    if k == 'IPC356_TestRecord':
        return {'c': 'test', 'net': r.net_name, 'id': r.id, 'pin': r.pin or '', 'feat': r.feature_type, 'loc': r.location,
                'dia': opt(r, 'hole_diameter'), 'plated': bool(getattr(r, 'plated', False)), 'acc': r.access, 'x': n(r.x_coord), 'y': n(r.y_coord),
                'w': opt(r, 'rect_x'), 'h': opt(r, 'rect_y'), 'rot': opt(r, 'rect_rotation', 1000), 'mask': getattr(r, 'soldermask_info', None) or '',
                'opt': (getattr(r, 'optional_info', None) or '').strip()}
    if k == 'IPC356_Outline':
        return {'c': 'out', 't': r.type, 'pts': [qp(p, M) for p in r.points]}
    if k == 'IPC356_Conductor':
        return {'c': 'cond', 'net': r.net_name, 'layer': r.layer, 'ap': [[] if v is None else [n(v)] for v in r.aperture],
                'shapes': [[qp(p, M) for p in s] for s in r.shapes]}
    if k == 'IPC356_Adjacency':
        return {'c': 'adj', 'net': r.net, 'nets': list(r.adjacent_nets)}
    if k == 'IPC356_EndOfFile':
        return {'c': 'eof'}
    return {'c': k}


def handle(t):
    if t['file']:
        d = tempfile.mkdtemp()
        try:
            fn = os.path.join(d, 'n.ipc')
            with open(fn, 'w', newline='') as f:
                f.write(t['text'])
            x = lib.read(fn)
        finally:
            shutil.rmtree(d)
    else:
        x = lib.loads(t['text'])

    shown = {}
    for side in ('top', 'bottom', 'both'):
        ctx = Recorder()
        x.render(ctx, side) if side != 'both' else x.render(ctx)
        shown[side] = ctx.seen

    def idx(rs):
        return [[k for k, s in enumerate(x.statements) if s is r][0] + 1 for r in rs]
    return {'st': [st(r) for r in x.statements],
            'lists': {'com': idx(x.comments), 'par': idx(x.parameters), 'test': idx(x.test_records), 'out': idx(x.outlines), 'adj': idx(x.adjacency_records)},
            'units': x.settings.units, 'angle': x.settings.angle_units,
            'nets': [{'name': m.name, 'adj': sorted(m.adjacent_nets)} for m in x.nets],
            'shown': shown, 'components': list(x.components), 'vias': len(x.vias),
            'points': [[n(p.position[0]), n(p.position[1]), p.net_name, p.layer] for p in x.primitives]}


main(handle)
