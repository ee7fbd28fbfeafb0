import os, sys, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from obs import *
from fractions import Fraction
import gerber
from gerber import rs274x
from gerber.cam import FileSettings
from gerber.utils import parse_gerber_value, write_gerber_value
from gerber.gerber_statements import CoordStmt
from gerber.excellon_statements import (CoordinateStmt, RepeatHoleStmt, SlotStmt,
                                        EndOfProgramStmt)


def digits(v, fmt):
    w = fmt[0] + fmt[1]
    n = Fraction(float(v)) * 10 ** fmt[1]
    k = int(round(n))
    if abs(float(n - k)) > 1e-3:
        return {'neg': k < 0, 'v': [OFF]}
    s = str(abs(k)).rjust(w, '0')
    return {'neg': v < 0, 'v': [int(c) for c in s]}


def sdigits(s):
    neg = s.startswith('-')
    body = s.lstrip('+-')
    if not re.match(r'^[0-9]+$', body):
        raise ValueError('written number is not a digit string: %r' % s)
    return {'neg': neg, 'str': [int(c) for c in body]}


def handle(t):
    fmt, zs, via, kind = tuple(t['fmt']), t['zs'], t['via'], t['kind']
    st = FileSettings(format=fmt, zero_suppression=zs)
    if kind in ('read', 'dec'):
        s = t['text']
        if via == 'func':
            v = parse_gerber_value(s, fmt, zs)
        elif via == 'gerber':
            f = rs274x.loads('%%FS%sAX%d%dY%d%d*%%\n%%MOMM*%%\n%%ADD10C,1*%%\nD10*\nX%sY%sD03*\nM02*\n' %
                             ('L' if zs == 'leading' else 'T', fmt[0], fmt[1], fmt[0], fmt[1], s, s))
            p = f.primitives[0].position
            if p[0] != p[1]:
                raise ValueError('x and y differ: %r' % (p,))
            v = p[0]
        elif via == 'gerberij':
            f = rs274x.loads('%%FS%sAX%d%dY%d%d*%%\n%%MOMM*%%\n%%ADD10C,1*%%\nD10*\nG75*\nG02X0Y0I%sJ%sD01*\nM02*\n' %
                             ('L' if zs == 'leading' else 'T', fmt[0], fmt[1], fmt[0], fmt[1], s, s))
            p = f.primitives[0].center
            if p[0] != p[1]:
                raise ValueError('i and j differ: %r' % (p,))
            v = p[0]
        elif via == 'excellon':
            c = CoordinateStmt.from_excellon('X%sY%s' % (s, s), st)
            if c.x != c.y:
                raise ValueError('x and y differ')
            v = c.x
        elif via == 'excellony':
            v = CoordinateStmt.from_excellon('Y%s' % s, st).y
        elif via == 'repeat':
            c = RepeatHoleStmt.from_excellon('R2X%sY%s' % (s, s), st)
            if c.xdelta != c.ydelta:
                raise ValueError('x and y differ')
            v = c.xdelta
        elif via == 'slot':
            c = SlotStmt.from_excellon('X%sY%sG85X%sY%s' % (s, s, s, s), st)
            if len({c.x_start, c.y_start, c.x_end, c.y_end}) != 1:
                raise ValueError('slot coordinates differ')
            v = c.x_start
        elif via == 'end':
            c = EndOfProgramStmt.from_excellon('M30X%sY%s' % (s, s), st)
            if c.x != c.y:
                raise ValueError('x and y differ')
            v = c.x
        return digits(v, fmt if kind == 'read' else tuple(t['dfmt']))
    v = float(t['value'])
    if via == 'func':
        s = write_gerber_value(v, fmt, zs)
    elif via == 'gerber':
        m = re.match(r'^X([-+0-9]*)Y([-+0-9]*)D03\*$', CoordStmt.flash((v, v)).to_gerber(st))
        if m.group(1) != m.group(2):
            raise ValueError('x and y differ')
        s = m.group(1)
    elif via == 'excellon':
        m = re.match(r'^X([-+0-9]*)Y([-+0-9]*)$', CoordinateStmt(v, v).to_excellon(st))
        if m.group(1) != m.group(2):
            raise ValueError('x and y differ')
        s = m.group(1)
    elif via == 'repeat':
        m = re.match(r'^R2X([-+0-9]*)(?:Y([-+0-9]*))?$', RepeatHoleStmt(2, v, None).to_excellon(st))
        s = m.group(1)
    elif via == 'slot':
        m = re.match(r'^X([-+0-9]*)Y([-+0-9]*)G85X([-+0-9]*)Y([-+0-9]*)$', SlotStmt(v, v, v, v).to_excellon(st))
        if len(set(m.groups())) != 1:
            raise ValueError('slot coordinates differ')
        s = m.group(1)
    elif via == 'end':
        m = re.match(r'^M30X([-+0-9]*)Y([-+0-9]*)$', EndOfProgramStmt(v, v).to_excellon(st))
        if m.group(1) != m.group(2):
            raise ValueError('x and y differ')
        s = m.group(1)
    if kind == 'rw':
        return digits(parse_gerber_value(s, fmt, zs), fmt)
    return sdigits(s)


main(handle)
