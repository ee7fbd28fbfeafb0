"""Concrete text of abstract macro programs (spec/Macro.tla)."""
from gtext import num

COMMENTS = ['comment', 'Rectangle 1,2,3', 'width = $1', 'a=1, b=$2', '$1 is the size', '1', 'x-y (z)', '']


def number(a, b, rng):
    neg = a < 0
    a = abs(a)
    s = '%.6f' % (a / float(b))
    assert abs(float(s) * b - a) < 1e-9
    s = s.rstrip('0')
    ip, fp = s.split('.')
    r = rng.random()
    if not fp:
        s = ip if r < .7 else (ip + '.0' if r < .9 else ip + '.')
    else:
        if r < .25:
            fp += '0'
        s = ip + '.' + fp
        if ip == '0' and rng.random() < .3:
            s = '.' + fp
    if rng.random() < .07 and s[0] != '.':
        s = rng.choice(['0', '00']) + s
    return ('-' if neg else '') + s


def scaled(a, b, rng):
    """the number as a product or quotient of a long literal, or None"""
    if a <= 0 or rng.random() > .12:
        return None
    k = rng.randint(2, 6)
    if rng.random() < .5:
        lit = ('%.12f' % (a / float(b) / 10 ** k)).rstrip('0')
        if lit[-1] != '.' and float(lit) * 10 ** k == a / float(b):
            return '(%sx%d)' % (lit, 10 ** k)
    else:
        lit = '%d' % round(a / float(b) * 10 ** k)
        if int(lit) / float(10 ** k) == a / float(b):
            return '(%s/%d)' % (lit, 10 ** k)


def expr(e, rng):
    out = []
    for t in e:
        k = t['t']
        if k == 'n':
            out.append(scaled(t['a'], t['b'], rng) or number(t['a'], t['b'], rng))
        elif k == 'v':
            out.append('$%d' % t['a'])
        elif k == 'x':
            out.append('x' if rng.random() < .7 else 'X')
        else:
            out.append(k)
    return ''.join(out)


def block(b, rng):
    if b['b'] == 'set':
        return '$%d=%s' % (b['n'], expr(b['e'], rng))
    if b['b'] == 'com':
        return '0 ' + rng.choice(COMMENTS)
    sep = ',' if rng.random() < .8 else ',\n'
    return sep.join(['%d' % b['code']] + [expr(m, rng) for m in b['m']])


def text(prog, rng):
    out = ['%FSLAX24Y24*%', rng.choice(['%MOIN*%', '%MOMM*%'])]
    cur = None
    for c in prog:
        if c['c'] == 'AM':
            nl = rng.choice(['', '\n', '\n'])
            out.append('%AM' + c['name'] + '*' + nl + ('*' + nl).join(block(b, rng) for b in c['blocks']) + '*' + nl + '%')
        elif c['c'] == 'AD':
            m = 'X'.join(number(a, b, rng) for a, b in c['params'])
            out.append('%%ADD%d%s%s*%%' % (c['d'], c['name'], ',' + m if m else ''))
        else:
            if c['d'] != cur:
                out.append('D%d*' % c['d'])
                cur = c['d']
            out.append('X%sY%sD03*' % (num(10 * c['p'][0], (2, 4), 'L'), num(10 * c['p'][1], (2, 4), 'L')))
    out.append('M02*')
    return '\n'.join(out) + '\n'
