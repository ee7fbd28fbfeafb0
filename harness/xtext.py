"""Concrete Excellon text for abstract programs (spec/Excellon.tla), written
independently of the library's own writer."""
import gtext

NM = {'inch': 25400000, 'metric': 1000000}
FMTS = {'inch': [(2, 4), (2, 4), (2, 5), (3, 5), (3, 4)], 'metric': [(3, 3), (3, 3), (4, 2), (3, 4), (2, 4), (4, 4)]}


def trim(s):
    return s.rstrip('0').rstrip('.') or '0'


class Printer(object):
    def __init__(self, rng, units, fmt, zeros, k, style):
        self.rng, self.units, self.fmt, self.zeros, self.k, self.st = rng, units, fmt, zeros, k, style

    def num(self, v):
        n = v * self.k
        if self.st['dec']:
            d = self.fmt[1]
            s = '%d.%0*d' % (abs(n) // 10 ** d, d, abs(n) % 10 ** d)
            if self.rng.random() < .5:
                s = s.rstrip('0')
                if s.endswith('.') and self.rng.random() < .5:
                    s += '0'
            return ('-' if n < 0 else '') + s
        s = gtext.num(n, self.fmt, {'leading': 'T', 'trailing': 'L'}[self.zeros])
        if self.st['full'] and self.rng.random() < .5:
            s = gtext.num(n, self.fmt, 'N')
        if self.st['plus'] and s[0] != '-' and self.rng.random() < .5:
            s = '+' + s
        return s

    def xy(self, x, y):
        return ('X' + self.num(x[0]) if x else '') + ('Y' + self.num(y[0]) if y else '')

    def dia(self, nm):
        """a diameter of the file's units with explicit point"""
        per = NM[self.units]
        a, b = divmod(nm, per)
        frac = '%0*d' % (8, b * 10 ** 8 // per)
        assert (b * 10 ** 8) % per == 0, nm
        s = '%d.%s' % (a, frac)
        s = s.rstrip('0')
        if s.endswith('.'):
            s += '0'
        if self.rng.random() < .2 and s.startswith('0.'):
            s = s[1:]
        return s

    def cmd(self, c):
        r, k = self.rng, c['c']
        if k == 'm48':
            return ['M48'] + ([';FILE_FORMAT=%d:%d' % self.fmt] if self.st['ff'] else [])
        if k == 'hdr':
            return [';LEADER: 12', ';HEADER: '] + ([';FILE_FORMAT=%d:%d' % self.fmt] if self.st['ff'] else [])
        if k == 'pct':
            return ['%']
        if k in ('m95', 'm00', 'm15', 'm16', 'm17', 'g05'):
            return [k.upper()]
        if k == 'unit':
            s = self.st['unit']
            if s == 'word':
                return ['%s,%s' % ('INCH' if self.units == 'inch' else 'METRIC', 'LZ' if self.zeros == 'leading' else 'TZ')]
            if s == 'fmtword':
                return ['%s,%s,%s.%s' % ('INCH' if self.units == 'inch' else 'METRIC', 'LZ' if self.zeros == 'leading' else 'TZ',
                                          '0' * self.fmt[0], '0' * self.fmt[1])]
            if s == 'bare':
                return ['INCH' if self.units == 'inch' else 'METRIC']
            if s == 'm7':
                return ['M72' if self.units == 'inch' else 'M71']
            return []
        if k == 'plated':
            return [';TYPE=%s' % {'plated': 'PLATED', 'nonplated': 'NON_PLATED'}[c['u']]]
        if k == 'tdef':
            extra = r.choice(['', '', '', 'F200S65', 'F00S00', 'B150F085H2000S100', 'F015Z0125', 'S8H1.5', 'B012Z-002', 'B012F012', 'F00B00'])
            t = 'T%d' if r.random() < .4 else 'T%02d'
            return [(t % c['n']) + extra + 'C' + self.dia(c['d'])]
        if k == 'hole':
            mm = r.random() < .5
            size = c['d'] / 1e6 if mm else c['d'] / 25400.
            pre = r.choice(['   ', 'T%02d ' % c['n']])
            return [';%sHoleSize %d. = %.6f Tolerance = +0.000000/-0.000000 %s %s Quantity = %d'.replace('HoleSize', 'Holesize')
                    % (pre, c['n'], size, {'plated': 'PLATED', 'nonplated': 'NON_PLATED', 'optional': 'OPTIONAL'}[c['u']],
                       'MM' if mm else 'MILS', r.randrange(1, 99))]
        if k == 'tsel':
            if r.random() < .15 and 0 < c['n'] < 100:
                return ['T%02d%02d' % (c['n'], r.randrange(1, 10))]
            return [r.choice(['T%d', 'T%02d', 'T%02d', 'T%03d']) % c['n']]
        if k in ('g00', 'g01'):
            s = self.xy(c['x'], c['y'])
            return [k.upper(), s] if r.random() < .25 else [k.upper() + s]
        if k == 'xy':
            return [self.xy(c['x'], c['y'])]
        if k == 'slot':
            return [self.xy(c['x'], c['y']) + 'G85' + self.xy(c['x2'], c['y2'])]
        if k == 'rep':
            return [r.choice(['R%d', 'R%02d']) % c['n'] + self.xy(c['x'], c['y'])]
        if k == 'inc':
            return [r.choice(['ICI,ON', 'ICI'] if c['u'] == 'on' else ['ICI,OFF', 'G90'])]
        if k == 'nop':
            o = ['; a comment', ';', 'ATC,ON', 'DETECT,ON', 'G40', 'F200', '', ';TYPO=X1Y1']
            if self.st['header'] and self.fmt == (2, 4):
                o += ['FMAT,2', 'FMAT,2']
            if self.st['header']:
                o += ['VER,1', 'T1,OFF']
            return [r.choice(o)]
        raise ValueError(k)

    def text(self, cmds, nl='\n', end=True):
        out = []
        seen = False
        for c in cmds:
            if c['c'] == 'm48' or c['c'] == 'hdr':
                self.st['header'] = True
            if c['c'] in ('pct', 'm95') and self.st['header']:
                seen = True
            if seen:
                self.st['header'] = False
            out += self.cmd(c)
        if end:
            out.append('M30')
        return nl.join(out) + nl


def toollist(ext, units, kind, rng):
    """a separate tool list: Allegro or PADS style"""
    out = []
    if kind == 'allegro':
        for t in ext:
            out.append('%.6f   %s   T%02d   0.000000   0.000000' % (t['d'] / 25400., {'plated': 'P', 'nonplated': 'N'}[t['p']], t['n']))
        return '\n'.join(out) + '\n'
    out = ['NC Tool report', 'Tool  Size  Pltd  Feed  Speed  Qty', '====  ====  ====  ====  =====  ===']
    for t in ext:
        out.append('%d   %.8f   %s   200   300   %d' % (t['n'], t['d'] / float(NM[units]), {'plated': 'x', 'nonplated': '-'}[t['p']], rng.randrange(99)))
    out += ['====  ====  ====  ====  =====  ===', '']
    return '\n'.join(out)


def maxco(cmds):
    """largest absolute coordinate a program can reach"""
    m, rep, inc = 1, 0, False
    for c in cmds:
        if c['c'] == 'inc':
            inc = c['u'] == 'on'
        elif inc and c['c'] != 'rep':
            rep += max(abs(sum(c[f][0] for f in fs if c[f])) for fs in (('x', 'x2'), ('y', 'y2'), ('x',), ('y',)))
        elif c['c'] == 'rep':
            rep += c['n'] * max([abs(v) for v in c['x'] + c['y']] + [0])
        else:
            m = max([m] + [abs(v) for f in ('x', 'y', 'x2', 'y2') for v in c[f]])
    return m + rep
