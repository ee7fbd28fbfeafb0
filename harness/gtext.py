"""Concrete RS-274-X text for abstract programs (see spec/Gerber.tla), written
independently of the library's own writer."""


def num(n, fmt, zs):
    """integer n (in units of 10^-fmt[1]) as a coordinate string"""
    sign = '-' if n < 0 else ''
    a = abs(n)
    w = fmt[0] + fmt[1]
    s = str(a).rjust(w, '0')
    assert len(s) == w, (n, fmt)
    if zs == 'L':
        s = s.lstrip('0') or '0'
    elif zs == 'T':
        s = s.rstrip('0') or '0'
    return sign + s


def dec(n, digits=5):
    """integer n in units of 10^-digits as a decimal number"""
    sign = '-' if n < 0 else ''
    a = abs(n)
    s = '%d.%0*d' % (a // 10 ** digits, digits, a % 10 ** digits)
    return sign + s


def adstr(ap, sd=5):
    m = [dec(v, sd) for v in ap['s']]
    if ap['sh'] == 'P':
        m.append(str(ap['n']))
        if ap['rot'] or ap['h']:
            m.append(str(ap['rot']))
    m += [dec(v, sd) for v in ap['h']]
    return '%s,%s' % (ap['sh'], 'X'.join(m))


def padded(v, fmt, zs, rng):
    """zeros that need not be there, up to the full width"""
    sign, d = ('-', v[1:]) if v[0] == '-' else ('', v)
    z = '0' * rng.randint(0, fmt[0] + fmt[1] - len(d))
    return sign + (z + d if zs == 'L' else d + z if zs == 'T' else d)


DEF_STYLE = {'nl': '\n', 'short': 0, 'g54': 0, 'units': 'MO', 'nops': 0, 'plus': 0}

NOPS = ['G04 comment*', '%INboard*%', '%LNtop*%', 'G04 second, comment*', '%OFA0B0*%', 'G04*',
        '%IPPOS*%', 'X*', '%TF.Part,Single*%']


def cmd(c, fmt, zs, rng=None, style=None):
    st = style or DEF_STYLE
    r = (lambda p: rng.random() < p) if rng else (lambda p: False)
    k = c['c']
    if k == 'MO':
        if st.get('units') == 'G7':
            return 'G70*' if c['u'] == 'inch' else 'G71*'
        return '%MOIN*%' if c['u'] == 'inch' else '%MOMM*%'
    if k == 'AD':
        return '%%ADD%d%s*%%' % (c['d'], adstr(c['ap']))
    if k == 'SEL':
        return ('G54D%d*' if r(st.get('g54', 0)) else 'D%d*') % c['d']
    if k == 'REG':
        return 'G36*' if c['on'] else 'G37*'
    if k == 'QUAD':
        return 'G75*' if c['m'] == 'multi-quadrant' else 'G74*'
    if k == 'LP':
        return '%LPD*%' if c['pol'] == 'dark' else '%LPC*%'
    if k == 'CO':
        s = c['f']
        if s and r(st.get('short', 0)):
            s = s.replace('G0', 'G')
        for ch, f in (('X', 'x'), ('Y', 'y'), ('I', 'i'), ('J', 'j')):
            if c[f]:
                v = num(c[f][0], fmt, zs)
                if st.get('pad') and r(st['pad']):
                    v = padded(v, fmt, zs, rng)
                if v[0] != '-' and r(st.get('plus', 0)):
                    v = '+' + v
                s += ch + v
        o = c['o']
        if o and r(st.get('short', 0)):
            o = o.replace('D0', 'D')
        return s + o + '*'
    if k == 'NOP':
        if rng:
            return rng.choice(['G04 comment*', '%INboard*%', '%LNtop*%', 'G04*', '%IPPOS*%', 'G04 X100Y100D01*', '%OFA0B0*%'])
        return 'G04 comment*'
    raise ValueError(k)


def text(cmds, fmt=(2, 4), zs='L', rng=None, style=None, eof=True):
    st = style or DEF_STYLE
    out = ['%%FS%sAX%d%dY%d%d*%%' % (zs, fmt[0], fmt[1], fmt[0], fmt[1])]
    out += [cmd(c, fmt, zs, rng, st) for c in cmds]
    if eof:
        out.append('M02*')
    return st.get('nl', '\n').join(out) + st.get('nl', '\n')


def scale(cmds, k, m=1):
    """multiply coordinates by k and aperture sizes by m"""
    res = []
    for c in cmds:
        c = dict(c)
        if c['c'] == 'CO':
            for f in 'xyij':
                c[f] = [v * k for v in c[f]]
        elif c['c'] == 'AD':
            a = dict(c['ap'])
            a['s'] = [v * m for v in a['s']]
            a['h'] = [v * m for v in a['h']]
            c['ap'] = a
        res.append(c)
    return res


def maxco(cmds):
    return max([abs(v) for c in cmds if c['c'] == 'CO' for f in 'xyij' for v in c[f]] + [1])
