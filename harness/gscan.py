"""Scanner of generated RS-274-X text into the commands of spec/Gerber.tla;
written from the format's description, independent of the library's parser.
Macro apertures get their shape from `shapes` (code -> descriptor)."""
import re
from fractions import Fraction

WORD = re.compile(r'^(G0?[123])?(?:X([+-]?\d+))?(?:Y([+-]?\d+))?(?:I([+-]?\d+))?(?:J([+-]?\d+))?(D0?[123])?$')


class ScanError(Exception):
    pass


def blocks(text):
    """(extended?, command text) in order"""
    k, n = 0, len(text)
    while k < n:
        c = text[k]
        if c in ' \t\r\n':
            k += 1
        elif c == '%':
            e = text.find('%', k + 1)
            if e < 0:
                raise ScanError('unclosed %')
            body = re.sub(r'[\r\n]', '', text[k + 1:e])
            if body.startswith('AM'):
                yield True, body.rstrip('*')
            else:
                for b in body.split('*'):
                    if b:
                        yield True, b
            k = e + 1
        else:
            e = text.find('*', k)
            if e < 0:
                raise ScanError('unclosed block: %r' % text[k:k + 40])
            yield False, re.sub(r'[\r\n]', '', text[k:e])
            k = e + 1


def value(s, fmt, zs, grid):
    """coordinate word as a multiple of 10^-grid"""
    neg = s[0] == '-'
    d = s.lstrip('+-')
    w = sum(fmt)
    d = d.ljust(w, '0') if zs == 'T' else d.rjust(w, '0')
    v = Fraction(int(d), 10 ** fmt[1]) * 10 ** grid
    if v.denominator != 1:
        raise ScanError('off the grid: ' + s)
    return -int(v) if neg else int(v)


def scan(text, grid, ss, shapes):
    fmt = zs = None
    res, ended = [], False
    for ext, b in blocks(text):
        if ended:
            raise ScanError('command behind the end of file')
        if ext:
            p = b[:2]
            if p == 'FS':
                m = re.match(r'FS([LT])AX(\d)(\d)Y(\d)(\d)$', b)
                if not m or m.group(2, 3) != m.group(4, 5):
                    raise ScanError('format: ' + b)
                zs, fmt = m.group(1), (int(m.group(2)), int(m.group(3)))
            elif p == 'MO':
                res.append({'c': 'MO', 'u': {'IN': 'inch', 'MM': 'metric'}[b[2:]]})
            elif p == 'LP':
                res.append({'c': 'LP', 'pol': {'D': 'dark', 'C': 'clear'}[b[2:]]})
            elif p == 'AM':
                res.append({'c': 'NOP'})
            elif p == 'AD':
                m = re.match(r'ADD(\d+)([^,]+)(?:,(.*))?$', b)
                d, sh = int(m.group(1)), m.group(2)
                if sh not in ('C', 'R', 'O', 'P'):
                    res.append({'c': 'AD', 'd': d, 'ap': shapes[d]})
                    continue
                v = [float(x) for x in m.group(3).split('X')]
                k = {'C': 1, 'R': 2, 'O': 2, 'P': 1}[sh]
                a = {'sh': sh, 's': v[:k], 'h': v[k:], 'n': 0, 'rot': 0}
                if sh == 'P':
                    a['n'] = int(v[1])
                    a['rot'] = int(round(v[2])) if len(v) > 2 else 0
                    a['h'] = v[3:]
                a['s'] = [int(round(x * ss)) for x in a['s']]
                a['h'] = [int(round(x * ss)) for x in a['h']]
                res.append({'c': 'AD', 'd': d, 'ap': a})
            else:
                raise ScanError('parameter: ' + b)
            continue
        if re.match(r'(G54)?D[1-9]\d+$', b):
            res.append({'c': 'SEL', 'd': int(b.split('D')[1])})
        elif b in ('G36', 'G37'):
            res.append({'c': 'REG', 'on': b == 'G36'})
        elif b in ('G74', 'G75'):
            res.append({'c': 'QUAD', 'm': 'single-quadrant' if b == 'G74' else 'multi-quadrant'})
        elif b.startswith('G04'):
            res.append({'c': 'NOP'})
        elif b in ('M02', 'M00', 'M2'):
            ended = True
        else:
            m = WORD.match(b)
            if not m or not b:
                raise ScanError('block: %r' % b)
            f, x, y, i, j, o = m.groups()
            val = lambda s: [] if s is None else [value(s, fmt, zs, grid)]
            norm = lambda s: '' if s is None else s if len(s) == 3 else s[0] + '0' + s[1]
            res.append({'c': 'CO', 'f': norm(f), 'x': val(x), 'y': val(y), 'i': val(i), 'j': val(j), 'o': norm(o)})
    if not ended:
        raise ScanError('no end of file')
    return res
