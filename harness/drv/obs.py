"""Projection of the library's public objects onto the specification's values.
Runs under PyPy.  Numbers become integers on a declared grid; a value that is
off the grid becomes OFF (reported as a mismatch by the trace spec)."""
import os
import sys
import json
import resource
import signal
import time
import traceback

sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))

OFF = 1999999999
BIG = 1999999998


def q(v, scale, tol=1e-3):
    """v * scale as an integer; tol is the admissible distance to the grid."""
    try:
        f = float(v) * scale
    except (TypeError, ValueError):
        return OFF
    if f != f or abs(f) > 1.9e9:
        return BIG
    r = int(round(f))
    # tolerance grows with magnitude: floats carry ~15 digits
    if abs(f - r) > tol + abs(f) * 1e-12:
        return OFF
    return r


def qp(p, scale, tol=1e-3):
    try:
        return [q(p[0], scale, tol), q(p[1], scale, tol)]
    except (TypeError, IndexError):
        return [OFF, OFF]


def shift(x, dx, dy):
    """x.offset, leaving out what is zero"""
    if dx and dy:
        x.offset(dx, dy)
    else:
        x.offset(**dict((k, v) for k, v in (('x_offset', dx), ('y_offset', dy)) if v))


class Scale(object):
    """cs: grid of coordinates per file unit, ss: grid of sizes per file unit"""
    def __init__(self, cs, ss, tol=1e-3):
        self.cs, self.ss, self.tol = cs, ss, tol


def hole(p, sc):
    hd = getattr(p, 'hole_diameter', 0) or 0
    hw = getattr(p, 'hole_width', 0) or 0
    hh = getattr(p, 'hole_height', 0) or 0
    if hd:
        r = [q(hd, sc.ss, sc.tol)]
        if hw or hh:
            r += [q(hw, sc.ss, sc.tol), q(hh, sc.ss, sc.tol)]
        return r
    if hw or hh:
        return [q(hw, sc.ss, sc.tol), q(hh, sc.ss, sc.tol)]
    return []


def ap(p, sc):
    n = type(p).__name__
    if n == 'Circle':
        return {'sh': 'C', 's': [q(p.diameter, sc.ss, sc.tol)], 'h': hole(p, sc), 'n': 0, 'rot': 0}
    if n == 'Rectangle':
        return {'sh': 'R', 's': [q(p.width, sc.ss, sc.tol), q(p.height, sc.ss, sc.tol)], 'h': hole(p, sc), 'n': 0,
                'rot': q(p.rotation, 1)}
    if n == 'Obround':
        return {'sh': 'O', 's': [q(p.width, sc.ss, sc.tol), q(p.height, sc.ss, sc.tol)], 'h': hole(p, sc), 'n': 0,
                'rot': q(p.rotation, 1)}
    if n == 'Polygon':
        return {'sh': 'P', 's': [q(2 * p.radius, sc.ss, sc.tol)], 'h': hole(p, sc), 'n': q(p.sides, 1),
                'rot': q(p.rotation, 1)}
    return {'sh': n, 's': [], 'h': [], 'n': 0, 'rot': 0}


def seg(p, sc):
    n = type(p).__name__
    if n == 'Line':
        return {'k': 'line', 's': qp(p.start, sc.cs, sc.tol), 'e': qp(p.end, sc.cs, sc.tol)}
    if n == 'Arc':
        return {'k': 'arc', 's': qp(p.start, sc.cs, sc.tol), 'e': qp(p.end, sc.cs, sc.tol),
                'ctr': qp(p.center, sc.cs, sc.tol), 'dir': str(p.direction), 'q': str(p.quadrant_mode)}
    return {'k': n}


def prim(p, sc):
    n = type(p).__name__
    base = {'pol': str(p.level_polarity), 'u': str(p.units)}
    if n in ('Line', 'Arc'):
        r = seg(p, sc)
        r['ap'] = ap(p.aperture, sc)
    elif n == 'Region':
        r = {'k': 'region', 'segs': [seg(s, sc) for s in p.primitives]}
    elif n in ('Circle', 'Rectangle', 'Obround', 'Polygon'):
        r = {'k': 'flash', 'p': qp(p.position, sc.cs, sc.tol), 'ap': ap(p, sc)}
    elif n == 'AMGroup':
        r = {'k': 'macro', 'p': qp(p.position, sc.cs, sc.tol), 'parts': [mpart(s, sc) for s in p.primitives]}
    else:
        r = {'k': n}
    r.update(base)
    return r


def mpart(p, sc):
    """part of a macro group: geometry relative to the board, size grid"""
    n = type(p).__name__
    s, t = sc.ss, sc.tol
    pol = str(p.level_polarity)
    if n == 'Circle':
        return {'k': 'circle', 'pts': [qp(p.position, s, t)], 'z': [q(p.diameter, s, t)], 'pol': pol}
    if n == 'Outline' or n == 'Region':
        return {'k': 'outline', 'pts': [qp(x.start, s, t) for x in p.primitives], 'z': [], 'pol': pol,
                'ends': [qp(x.end, s, t) for x in p.primitives]}
    if n == 'Polygon':
        return {'k': 'polygon', 'pts': [qp(p.position, s, t)],
                'z': [q(2 * p.radius, s, t), q(p.sides, 1), q(p.rotation, 1000)], 'pol': pol}
    if n == 'Rectangle':
        return {'k': 'rect', 'pts': [qp(p.position, s, t)],
                'z': [q(p.width, s, t), q(p.height, s, t), q(p.rotation, 1000)], 'pol': pol}
    return {'k': n, 'pts': [], 'z': [], 'pol': pol}


def image(prims, sc):
    return [prim(p, sc) for p in prims]


LIMIT = 60      # seconds for one task (they take milliseconds)


def _late(*a):
    raise RuntimeError('the library did not answer within %d s' % LIMIT)


def main(handler):
    """one observation per task; an exception of the library (or no answer, or
    memory without bound) is an observation"""
    fin, fout = sys.argv[1], sys.argv[2]
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    signal.signal(signal.SIGALRM, _late)
    late = 0
    with open(fin) as f, open(fout, 'w') as g:
        for line in f:
            t = json.loads(line)
            try:
                if late >= 2:
                    _late()
                t0 = time.time()
                # again and again: the library may swallow exceptions
                signal.setitimer(signal.ITIMER_REAL, LIMIT, 1)
                try:
                    o = handler(t)
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    late += time.time() - t0 >= LIMIT
                o.setdefault('err', '')
            except (Exception, SystemExit) as e:
                o = {'err': '%s: %s' % (type(e).__name__, e),
                     'tb': traceback.format_exc().splitlines()[-4:]}
            g.write(json.dumps(o) + '\n')
            g.flush()
