import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from obs import *
from gerber import rs274x

S = 1000


def r(v):
    f = float(v) * S
    return int(round(f)) if abs(f) < 1e9 else BIG


def rp(p):
    return [r(p[0]), r(p[1])]


def part(p):
    n = type(p).__name__
    o = {'k': n, 'pol': str(p.level_polarity), 'pts': [], 'z': [], 'closed': False}
    if n == 'Circle':
        o.update(k='circle', pts=[rp(p.position)], z=[r(p.diameter)])
        if p.hole_diameter or p.hole_width or p.hole_height:
            o['k'] = 'holed-circle'
    elif n == 'Polygon':
        rot = p.rotation
        o.update(k='polygon', pts=[rp(p.position)],
                 z=[r(2 * p.radius), q(p.sides, 1), q(rot, 1)])
        if p.hole_diameter or p.hole_width or p.hole_height:
            o['k'] = 'holed-polygon'
    elif n in ('Outline', 'Region'):
        ss = p.primitives
        ok = all(type(s).__name__ == 'Line' for s in ss) and len(ss) > 0
        o['k'] = 'contour'
        if ok:
            o['pts'] = [rp(s.start) for s in ss]
            nx = ss[1:] + ss[:1]
            o['closed'] = all(max(abs(a.end[0] - b.start[0]), abs(a.end[1] - b.start[1])) < 1e-6
                              for a, b in zip(ss, nx))
    return o


def handle(t):
    f = rs274x.loads(t['text'])
    img = []
    for p in f.primitives:
        if type(p).__name__ != 'AMGroup' or p.level_polarity != 'dark':
            img.append({'p': [OFF, OFF], 'parts': []})
        else:
            img.append({'p': qp(p.position, S), 'parts': [part(x) for x in p.primitives]})
    return {'img': img}


main(handle)
