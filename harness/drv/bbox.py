"""Queries and changes of graphic objects (spec/BBox.tla).  Lengths of the
specification are in 10 nm; the library gets them in the object's units."""
import math
import os
import shutil
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from phys import *
from gerber import primitives as P_, rs274x, excellon as xlib
from gerber.am_statements import AMCirclePrimitive, AMCenterLinePrimitive
from gerber.cam import FileSettings

SIZES = {'circle': ['diameter'], 'rbutterfly': ['diameter'], 'sbutterfly': ['side'], 'srdonut': ['outer_diameter'],
         'donut': ['outer_diameter'], 'hexdonut': ['outer_diameter'], 'drill': ['diameter'], 'polygon': ['radius'],
         'rectangle': ['width', 'height'], 'obround': ['width', 'height'], 'diamond': ['width', 'height'],
         'ellipse': ['width', 'height'], 'chamfer': ['width', 'height', 'chamfer'], 'roundrect': ['width', 'height', 'radius'],
         'slot': ['diameter']}


def deg(r):
    return math.degrees(math.atan2(r[1], r[0]))


def build(o, u):
    k = 1 / K[u]
    pts = [(x * k, y * k) for x, y in o['pts']]
    sz = [v * k for v in o['sz']]
    n = o['k']
    kw = {'units': u}
    if o['rot'][1] or o['rot'][0] < 0:
        kw['rotation'] = deg(o['rot'])
    if n == 'line':
        return P_.Line(pts[0], pts[1], build(o['sub'][0], u), **kw)
    if n == 'arc':
        return P_.Arc(pts[0], pts[1], pts[2], o['dir'], build(o['sub'][0], u), o['q'], **kw)
    if n == 'region':
        return P_.Region([build(s, u) for s in o['sub']], **kw)
    if n == 'outline':
        return P_.Outline([build(s, u) for s in o['sub']], **kw)
    if n == 'group':
        g = P_.AMGroup([], **kw)
        g.position = pts[0]             # no parts yet
        g.primitives = [build(s, u) for s in o['sub']]
        return g
    if n == 'slot':
        return P_.Slot(pts[0], pts[1], sz[0], **kw)
    p = pts[0]
    if n == 'circle':
        return P_.Circle(p, sz[0], **kw)
    if n == 'polygon':
        return P_.Polygon(p, o['sz'][1] if len(sz) > 1 else 6, sz[0], **kw)
    if n == 'rbutterfly':
        return P_.RoundButterfly(p, sz[0], **kw)
    if n == 'sbutterfly':
        return P_.SquareButterfly(p, sz[0], **kw)
    if n == 'srdonut':
        return P_.SquareRoundDonut(p, sz[0] / 4, sz[0], **kw)
    if n == 'donut':
        return P_.Donut(p, 'octagon', sz[0] / 4, sz[0], **kw)
    if n == 'hexdonut':
        return P_.Donut(p, 'hexagon', sz[0] / 4, sz[0], **kw)
    if n == 'drill':
        return P_.Drill(p, sz[0], **kw)
    if n == 'ellipse':
        return P_.Ellipse(p, sz[0], sz[1], **kw)
    if n == 'rectangle':
        return P_.Rectangle(p, sz[0], sz[1], **kw)
    if n == 'obround':
        return P_.Obround(p, sz[0], sz[1], **kw)
    if n == 'diamond':
        return P_.Diamond(p, sz[0], sz[1], **kw)
    if n == 'chamfer':
        return P_.ChamferRectangle(p, sz[0], sz[1], sz[2], [c == '1' for c in o['dir']] if o['dir'] else None, **kw)
    if n == 'roundrect':
        return P_.RoundRectangle(p, sz[0], sz[1], sz[2], [c == '1' for c in o['dir'] or '1111'], **kw)
    raise ValueError(n)


def fresh(p):
    """an equal object, freshly built from what the object shows"""
    n = type(p).__name__
    kw = {'units': p.units}
    if p.rotation:
        kw['rotation'] = p.rotation
    C = getattr(P_, n)
    if n == 'Line':
        return C(p.start, p.end, fresh(p.aperture), **kw)
    if n == 'Arc':
        return C(p.start, p.end, p.center, p.direction, fresh(p.aperture), p.quadrant_mode, **kw)
    if n in ('Region', 'Outline'):
        subs = [fresh(s) for s in p.primitives]
        o = C([P_.Line((0, 0), (0, 0), P_.Circle((0, 0), 0))], **kw)        # an outline edited open is still an outline
        o.primitives = subs
        return o
    if n == 'AMGroup':
        g = C([], **kw)
        g.position = p.position
        g.primitives = [fresh(s) for s in p.primitives]
        return g
    if n == 'Slot':
        return C(p.start, p.end, p.diameter, **kw)
    if n in ('Circle', 'RoundButterfly', 'Drill'):
        return C(p.position, p.diameter, **kw)
    if n == 'Polygon':
        return C(p.position, p.sides, p.radius, **kw)
    if n == 'SquareButterfly':
        return C(p.position, p.side, **kw)
    if n == 'SquareRoundDonut':
        return C(p.position, 0, p.outer_diameter, **kw)
    if n == 'Donut':
        return C(p.position, p.shape, 0, p.outer_diameter, **kw)
    if n == 'ChamferRectangle':
        return C(p.position, p.width, p.height, p.chamfer, p.corners, **kw)
    if n == 'RoundRectangle':
        return C(p.position, p.width, p.height, p.radius, p.corners, **kw)
    return C(p.position, p.width, p.height, **kw)


def b4(b, k):
    (a, c), (d, e) = b
    return [P(v, k) for v in (a, c, d, e)]


def look(p, at, f=None):
    k = K[p.units]
    try:
        f = f or fresh(p)
        return {'at': at, 'err': '', 'u': p.units, 'box': b4(p.bounding_box, k), 'bare': b4(p.bounding_box_no_aperture, k),
                'fresh': b4(f.bounding_box, k), 'freshbare': b4(f.bounding_box_no_aperture, k)}
    except Exception as e:
        return {'at': at, 'err': '%s: %s' % (type(e).__name__, e), 'u': p.units, 'box': [], 'bare': [], 'fresh': [], 'freshbare': []}


def assign(p, op):
    k = 1 / K[p.units]
    a, v = op['a'], op['v']
    if a in ('position', 'start', 'end', 'center'):
        q = (v[0] * k, v[1] * k)
        # the same point is the same number, also after conversions
        for b in ('start', 'end'):
            r = getattr(p, b, None)
            if b != a and r is not None and abs(r[0] - q[0]) + abs(r[1] - q[1]) < 1e-9:
                q = r
        setattr(p, a, q)
    elif a == 'aperture':
        p.aperture = build(op['w'], p.units)
    elif a == 'direction':
        p.direction = 'clockwise' if p.direction == 'counterclockwise' else 'counterclockwise'
    elif a == 'quadrant_mode':
        p.quadrant_mode = 'single-quadrant' if p.quadrant_mode == 'multi-quadrant' else 'multi-quadrant'
    elif a == 'rotation':
        p.rotation = deg(v)
    elif a == 'corners':
        p.corners = [c == '1' for c in v]
    elif a == 'grow':
        p.primitives.append(build(op['w'], p.units))
    elif a == 'shrink':
        p.primitives.pop()
    else:
        setattr(p, a, v[0] * k)


def apply(p, op):
    o = op['o']
    if o == 'off':
        shift(p, op['v'][0] / K[p.units], op['v'][1] / K[p.units])
    elif o == 'conv':
        getattr(p, 'to_' + ('inch' if op['a'] == 'inch' else 'metric'))()
    elif o == 'set':
        assign(p, op)
    elif o != 'query':
        s = p.aperture if hasattr(p, 'aperture') else p.primitives[op['n'] - 1]
        if o == 'poff':
            s.offset(op['v'][0] / K[s.units], op['v'][1] / K[s.units])
        elif o == 'part':
            assign(s, op)
        elif o == 'subpart':
            assign(s.aperture, op)


def hist(t):
    p = build(t['obj'], 'inch')
    obs = []
    for n, op in enumerate(t['ops']):
        try:
            apply(p, op)
        except Exception as e:
            obs.append({'at': n + 1, 'err': '%s: %s' % (type(e).__name__, e), 'u': '', 'box': [], 'bare': [], 'fresh': [], 'freshbare': []})
            break
        if op['o'] == 'query':
            obs.append(look(p, n + 1))
    return {'obs': obs}


# ------------------------------------------------------------------ files
ROUND = 1000


def orec(kind, pts, sz, p, k, sub=(), **kw):
    r = getattr(p, 'rotation', 0) or 0
    rot = [1, 0, 1]
    if r % 90 == 0:
        rot = {0: [1, 0, 1], 90: [0, 1, 1], 180: [-1, 0, 1], 270: [0, -1, 1]}[int(r) % 360]
    else:
        rot = [int(round(math.cos(math.radians(r)) * ROUND)), int(round(math.sin(math.radians(r)) * ROUND)), ROUND]
    d = {'k': kind, 'pts': [PP(x, k) for x in pts], 'sz': [P(v, k) for v in sz], 'rot': rot, 'sub': list(sub), 'dir': '', 'q': '', 'r': 0,
         'u': str(p.units)}
    d.update(kw)
    return d


def shape_(p, k):
    n = type(p).__name__
    if n == 'Circle':
        return orec('circle', [p.position], [p.diameter], p, k)
    if n == 'Polygon':
        return orec('polygon', [p.position], [p.radius], p, k)
    if n in ('Rectangle', 'Obround'):
        return orec(n.lower(), [p.position], [p.width, p.height], p, k)
    if n == 'Line':
        return orec('line', [p.start, p.end], [], p, k, [shape_(p.aperture, k)])
    if n == 'Arc':
        return orec('arc', [p.start, p.end, p.center], [], p, k, [shape_(p.aperture, k)], dir=p.direction, q=p.quadrant_mode,
                    r=P(math.hypot(p.start[0] - p.center[0], p.start[1] - p.center[1]), k))
    if n == 'Region':
        # a segment has no aperture of its own
        subs = []
        for s in p.primitives:
            if type(s).__name__ == 'Line':
                subs.append(orec('line', [s.start, s.end], [], s, k, [DOT]))
            else:
                subs.append(orec('arc', [s.start, s.end, s.center], [], s, k, [DOT], dir=s.direction, q=s.quadrant_mode,
                                 r=P(math.hypot(s.start[0] - s.center[0], s.start[1] - s.center[1]), k)))
        return orec('region', [], [], p, k, subs)
    if n == 'Outline':
        return orec('outline', [], [], p, k, [shape_(s, k) for s in p.primitives])
    if n == 'AMGroup':
        return orec('group', [p.position], [], p, k, [shape_(s, k) for s in p.primitives])
    if n == 'Drill':
        return orec('drill', [p.position], [p.diameter], p, k)
    if n == 'Slot':
        return orec('slot', [p.start, p.end], [p.diameter], p, k)
    raise ValueError(n)


DOT = {'k': 'circle', 'pts': [[0, 0]], 'sz': [0], 'rot': [1, 0, 1], 'sub': [], 'dir': '', 'q': '', 'r': 0, 'u': ''}


class HitLike(object):
    """the box of a drill hit, with the look of a primitive"""
    def __init__(self, h, u):
        self.bounding_box = self.bounding_box_no_aperture = h.bounding_box
        self.units = u


def fileobs(t):
    d = tempfile.mkdtemp()
    try:
        fn = os.path.join(d, 'a.gbr')
        with open(fn, 'w') as f:
            f.write(t['text'])
        x = t.get('drill')
        if x:
            f = xlib.loads(t['text'], settings=FileSettings(units='inch', format=tuple(x['fmt']), zeros=x['zeros']))
        else:
            f = rs274x.loads(t['text'])
    finally:
        shutil.rmtree(d)
    for op in t['ops']:
        if op['o'] == 'query':
            f.bounding_box
            [p.bounding_box for p in f.primitives]
        elif op['o'] == 'conv':
            getattr(f, 'to_' + ('inch' if op['a'] == 'inch' else 'metric'))()
        else:
            shift(f, op['v'][0] / K[f.units], op['v'][1] / K[f.units])
    objs, obs = [], []
    k = K[f.units]
    for p in f.primitives:
        objs.append(shape_(p, k))
        obs.append(look(p, 0, None if type(p).__name__ in ('Line', 'Arc', 'Circle', 'Rectangle') else p))
    if x:
        for h in f.hits:
            pts = [h.start, h.end] if hasattr(h, 'slot_type') else [h.position]
            hl = HitLike(h, f.units)
            r = orec('slot' if len(pts) > 1 else 'drill', pts, [h.tool.diameter], hl, k)
            objs.append(r)
            obs.append(look(hl, 0, hl))
    return {'objs': objs, 'obs': obs, 'fbox': b4(f.bounding_box, k) if objs else []}


def handle(t):
    return hist(t) if t['k'] == 'hist' else fileobs(t)


if __name__ == '__main__':
    main(handle)
