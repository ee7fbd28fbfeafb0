"""Concrete text of abstract netlist lines (spec/Ipc.tla)."""


def num(v, w, rng, signed=True):
    """v right-justified in w columns"""
    r = rng.random()
    if v < 0:
        return '-%0*d' % (w - 1, -v) if r < .6 else '%*d' % (w, v)
    if r < .4:
        return '%0*d' % (w, v) if not signed or r < .3 else '+%0*d' % (w - 1, v)
    return '%*d' % (w, v)


def test(l, rng):
    s = l['code'] + '%-14s' % l['net'] + '   ' + '%-6s' % l['id']
    if l['pin'] or len(l['id']) > 6 or rng.random() < .5:
        s += '-%-4s' % l['pin']
    else:
        s += '     '
    s += 'M' if l['mid'] else ' '
    s += 'D' + num(l['dia'][0], 4, rng, False) if l['dia'] else '     '
    s += l['pl'] or ' '
    s += 'A%02d' % l['acc']
    s += 'X' + num(l['x'], 7, rng) + 'Y' + num(l['y'], 7, rng)
    s += 'X' + num(l['w'][0], 4, rng, False) if l['w'] else '     '
    s += 'Y' + num(l['h'][0], 4, rng, False) if l['h'] else '     '
    s += 'R' + num(l['rot'][0], 3, rng, False) if l['rot'] else '    '
    s += ' '
    s += 'S' + l['sm'] if l['sm'] else '  '
    if l['opt']:
        s += ' ' + l['opt']
    r = rng.random()
    return s.rstrip() if r < .6 else s + rng.choice(['', '  ', '      '])


def points(ps, rng):
    def n(v):
        return ('-' if v < 0 else rng.choice(['', '', '+'])) + '%0*d' % (rng.choice([1, 1, 6]), abs(v))
    return ' '.join(('X' + n(x[0]) if x else '') + ('Y' + n(y[0]) if y else '') for x, y in ps)


def line(l, rng, prev):
    c = l['c']
    if c == 'com':
        return ('C  ' + l['t']).rstrip() if rng.random() < .7 else 'C  ' + l['t'] + '   '
    if c == 'par':
        return ('P  %s %s' % (l['p'], l['v'])).rstrip() + rng.choice(['', '  '])
    if c == 'test':
        return test(l, rng)
    if c == 'out':
        return '389%-14s' % l['t'] + rng.choice(['     ', ' ']) + points(l['pts'], rng)
    if c == 'cond':
        ap = points([l['ap']], rng).replace('+', '')
        sh = rng.choice([' * ', '*']).join(points(p, rng) for p in l['pts'])
        return '378%-14s L%02d ' % (l['net'], l['layer']) + ap + ' ' + sh
    if c == 'adj':
        return '379' + ' '.join([l['net']] + l['nets'])
    if c == 'cont':
        if prev['c'] == 'adj':
            return '079' + rng.choice([' ', '    ']) + ' '.join(l['nets'])
        return '0' + ('89' if prev['c'] == 'out' else '78') + rng.choice([' ', ' ' * 19]) + points(l['pts'], rng)
    if c == 'eof':
        return '999'
    return ''


def text(lines, rng):
    out, prev = [], None
    for l in lines:
        out.append(line(l, rng, prev))
        if l['c'] != 'cont':
            prev = l
    nl = rng.choice(['\n', '\n', '\r\n'])
    return nl.join(out) + (nl if rng.random() < .8 else '')
