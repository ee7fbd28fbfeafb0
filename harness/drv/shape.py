"""Corners, equality and equivalence of graphic objects (spec/Shape.tla)."""
from bbox import *


def look2(p, at):
    k = K[p.units]
    r = {'at': at, 'err': '', 'vs': [], 'segs': [], 'same': True, 'moved': False, 'width': 0}
    try:
        v = p.vertices
        if v is not None:
            r['vs'] = [PP(x, k) for x in v]
            for s in p.segments or []:
                r['segs'].append([next((i + 1 for i, x in enumerate(v) if abs(x[0] - e[0]) + abs(x[1] - e[1]) < 1e-9), 0) for e in s])
        f = fresh(p)
        r['same'] = (p == f) and (f == p) and not (p != f)
        f.offset(.001, 0)
        r['moved'] = (p == f) or (f == p) or not (p != f)
        if type(p).__name__ == 'Outline':
            r['width'] = P(p.width, k)
    except Exception as e:
        r['err'] = '%s: %s' % (type(e).__name__, e)
    return r


def history(t):
    p = build(t['obj'], 'inch')
    obs = []
    for n, op in enumerate(t['ops']):
        try:
            apply(p, op)
            if op['o'] == 'query':
                [x.bounding_box for x in getattr(p, 'primitives', [p])]
                p.bounding_box
        except Exception as e:
            obs.append({'at': n + 1, 'err': '%s: %s' % (type(e).__name__, e), 'vs': [], 'segs': [], 'same': True, 'moved': False, 'width': 0})
            break
        if op['o'] == 'query':
            obs.append(look2(p, n + 1))
    return {'obs': obs}


HOLE = {'d': 'hole_diameter', 'w': 'hole_width', 'h': 'hole_height'}


def full(o, u):
    """the object with its hole and polarity"""
    p = build(o, u)
    if o['q'] in HOLE:
        setattr(p, HOLE[o['q']], 300 / K[u])
    if o['dir'] == 'clear':
        p.level_polarity = 'clear'
    if o['k'] == 'group':
        p.primitives = [full(s, u) for s in o['sub']]
    return p


def pair(t):
    p, u = t['pair'], t['u']
    r = {'err': '', 'eqv': False, 'eq': False, 'qe': False}
    try:
        a, b = full(p['a'], u), full(p['b'], u)
        if t['ask']:
            [x.bounding_box for x in (a, b)[:t['ask']]]
        if hasattr(a, 'equivalent'):
            r['eqv'] = bool(a.equivalent(b, (p['v'][0] / K[u], p['v'][1] / K[u])))
        r['eq'], r['qe'] = bool(a == b), bool(b == a)
    except Exception as e:
        r['err'] = '%s: %s' % (type(e).__name__, e)
    return {'obs': r}


def handle2(t):
    return history(t) if t['k'] == 'hist' else pair(t)


main(handle2)
