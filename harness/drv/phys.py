"""Projection of file objects to the values of spec/FileHist.tla: everything in
units of 10 nm, by the units the file reports."""
from obs import *

K = {'inch': 2540000.0, 'metric': 100000.0}
CAP = 999999999


def P(v, k):
    try:
        f = float(v) * k
    except (TypeError, ValueError):
        return CAP
    if f != f or abs(f) > 9e8:
        return CAP
    return int(round(f))


def PP(p, k):
    try:
        return [P(p[0], k), P(p[1], k)]
    except (TypeError, IndexError):
        return [CAP, CAP]


def rec(k, fl='', pol='', u='', pts=(), ctr=(), sz=(), sub=()):
    return {'k': k, 'fl': fl, 'pol': pol, 'u': u, 'pts': list(pts), 'ctr': list(ctr), 'sz': list(sz), 'sub': list(sub)}


def rot(v):
    try:
        return '%.3f' % (float(v) + 0.0)
    except (TypeError, ValueError):
        return str(v)


def hole_sz(p, k):
    return [P(getattr(p, a, 0) or 0, k) for a in ('hole_diameter', 'hole_width', 'hole_height')]


def shape(p, k):
    """size and flags of an aperture-like object, no position"""
    n = type(p).__name__
    if n == 'Circle':
        return rec('ap-C', '', sz=[P(p.diameter, k)] + hole_sz(p, k))
    if n in ('Rectangle', 'Obround'):
        return rec('ap-' + n[0], 'rot ' + rot(p.rotation), sz=[P(p.width, k), P(p.height, k)] + hole_sz(p, k))
    if n == 'Polygon':
        return rec('ap-P', 'n %s rot %s' % (p.sides, rot(p.rotation)), sz=[P(2 * p.radius, k)] + hole_sz(p, k))
    if n == 'AMGroup':
        return rec('ap-macro', '', sub=[part(s, k, True) for s in p.primitives])
    return rec('ap-' + n)


def part(p, k, template=False):
    n = type(p).__name__
    pol = str(p.level_polarity)
    u = '' if template else str(p.units)
    if n in ('Outline', 'Region'):
        return rec(n, '', pol, u, [PP(s.start, k) for s in p.primitives] + [PP(s.end, k) for s in p.primitives])
    s = shape(p, k)
    return rec(n, s['fl'], pol, u, [PP(p.position, k)], [], s['sz'])


def segm(p, k):
    n = type(p).__name__
    if n == 'Line':
        return rec('line', '', str(p.level_polarity), str(p.units), [PP(p.start, k), PP(p.end, k)])
    if n == 'Arc':
        return rec('arc', '%s %s' % (p.direction, p.quadrant_mode), str(p.level_polarity), str(p.units),
                   [PP(p.start, k), PP(p.end, k)], [PP(p.center, k)])
    return rec(n)


def obj(p, k):
    n = type(p).__name__
    pol, u = str(p.level_polarity), str(p.units)
    if n in ('Line', 'Arc'):
        r = segm(p, k)
        a = shape(p.aperture, k)
        a['u'] = str(p.aperture.units)
        for s in a['sub']:
            s['u'] = a['u']
        r['sub'] = [a]
        return r
    if n == 'Region':
        return rec('region', '', pol, u, sub=[segm(s, k) for s in p.primitives])
    if n == 'AMGroup':
        return rec('macro', '', pol, u, [PP(p.position, k)], sub=[part(s, k) for s in p.primitives])
    if n in ('Circle', 'Rectangle', 'Obround', 'Polygon'):
        a = shape(p, k)
        a['u'] = u
        return rec('flash', '', pol, u, [PP(p.position, k)], sub=[a])
    if n == 'Drill':
        return rec('drill', '', '', u, [PP(p.position, k)], sz=[P(p.diameter, k)])
    if n == 'Slot':
        return rec('slot', '', '', u, [PP(p.start, k), PP(p.end, k)], sz=[P(p.diameter, k)])
    return rec(n)


def cmdrec(k, t='', u='', x=None, y=None, i=None, j=None, sz=(), f=1.):
    o = lambda v: [] if v is None else [P(v, f)]
    return {'k': k, 't': t, 'u': u, 'x': o(x), 'y': o(y), 'i': o(i), 'j': o(j), 'sz': list(sz)}


def command(s, k, settings):
    n = type(s).__name__
    if n == 'CoordStmt':
        return cmdrec('CO', '%s %s' % (s.function or '', s.op or ''), '', s.x, s.y, s.i, s.j, f=k)
    if n == 'MOParamStmt':
        return cmdrec('MO', u=str(s.mode))
    if n == 'FSParamStmt':
        return cmdrec('FS')
    if n == 'ADParamStmt':
        m = list(s.modifiers[0]) if s.modifiers and s.modifiers[0] else []
        fix = (1, 2) if s.shape == 'P' else ()
        t = 'D%d %s %s' % (s.d, s.shape, ' '.join(rot(m[i]) for i in fix if i < len(m)))
        if s.shape not in ('C', 'R', 'O', 'P'):
            return cmdrec('AD', t)          # macro parameters: judged by the apertures
        return cmdrec('AD', t, sz=[P(v, k) for i, v in enumerate(m) if i not in fix])
    if n == 'AMParamStmt':
        return cmdrec('AM', s.name)
    if n in ('OFParamStmt', 'SFParamStmt'):
        return cmdrec('OF')
    return cmdrec('T', s.to_gerber(settings))


def bbox(f, k):
    if not f.primitives:
        return []
    (a, b), (c, d) = f.bounding_box
    (e, g), (h, i) = f.bounds
    return [P(v, k) for v in (a, b, c, d) + ((e, g, h, i) if e <= g and h <= i else ())]


def gerber(f, bb=True):
    k = K[f.units]
    st = f.settings
    aps = []
    for a in f.apertures:
        r = shape(a, K[str(a.units)])
        aps.append(r)
    return {'ref': 0, 'u': str(f.units),
            'fmt': {'i': f.format[0], 'd': f.format[1], 'zs': str(f.zero_suppression), 'n': str(f.notation)},
            'im': [obj(p, k) for p in f.primitives], 'st': [command(s, k, st) for s in f.statements],
            'aps': aps, 'bb': bbox(f, k) if bb else []}


def hit(h, k):
    u = str(h.tool.settings.units)
    fl = 'T%d' % h.tool.number
    if hasattr(h, 'slot_type'):
        return rec({1: 'rout', 2: 'g85'}.get(h.slot_type, '?'), fl, '', u, [PP(h.start, k), PP(h.end, k)], sz=[P(h.tool.diameter, k)])
    return rec('hole', fl, '', u, [PP(h.position, k)], sz=[P(h.tool.diameter, k)])


def excellon(f, bb=True):
    k = K[f.units]
    im = [hit(h, k) for h in f.hits]
    ps = [obj(p, k) for p in f.primitives]
    for n, p in enumerate(ps):          # each hit with its graphic object
        if n < len(im):
            im[n]['sub'] = [p]
        else:
            im.append(p)
    aps = [rec('tool', 'T%d' % t.number, sz=[P(t.diameter, K[str(t.settings.units)])])
           for n, t in sorted(f.tools.items())]
    b = []
    if bb and f.hits:
        (x0, x1), (y0, y1) = f.bounding_box
        b = [P(v, k) for v in (x0, x1, y0, y1)]
    return {'ref': 0, 'u': str(f.units),
            'fmt': {'i': f.format[0], 'd': f.format[1], 'zs': str(f.zero_suppression), 'n': ''},
            'im': im, 'st': [], 'aps': aps, 'bb': b}
