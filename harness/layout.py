"""Laid out Gerber text and its symbol stream (spec/Layout.tla)."""
import gtext

W_NOPS = ['G04 comment', 'G04', 'G4 short comment', 'G04 X100Y100D01', 'G04 second, comment D10', 'G99', 'M98', 'G90', 'M0', 'X', 'G04 #@! TF.Part,Single',
          'G04 M48', 'G04 FSLAX55Y55', 'N10', 'G04 MOMM', 'T01']
P_NOPS = ['INboard', 'LNtop', 'OFA0B0', 'IPPOS', 'TF.Part,Single', 'TA.AperFunction,Conductor', 'TD', 'SRX1Y1I0J0', 'TF.FileFunction,Copper,L1,Top',
          'ASAXBY', 'MIA0B0', 'TO.N,Net-1', 'LMN', 'LR0', 'LS1', 'IR0', 'KO']
ALONE = ()


def nop(rng, kind=None):
    k = kind or rng.choice('wp')
    return {'c': 'NOP', 'kind': k, 'text': rng.choice(P_NOPS if k == 'p' else W_NOPS)}


def body(c, fmt, zs, rng, style):
    """(kind, text of the command without percent signs and star)"""
    if c['c'] == 'NOP' and 'text' in c:
        return c['kind'], c['text']
    if c['c'] == 'FS':
        return 'p', 'FS%sAX%d%dY%d%d' % (zs, fmt[0], fmt[1], fmt[0], fmt[1])
    s = gtext.cmd(c, fmt, zs, rng, style)
    kind = 'p' if s[0] == '%' else 'w'
    s = s.strip('%')
    assert s[-1] == '*' and '*' not in s[:-1], s
    return kind, s[:-1]


class Windows(object):
    """decision windows drawn from the design run"""
    def __init__(self, ps, rng):
        self.rng = rng
        self.by = {}
        for p in ps:
            ks = tuple(p['kinds'])
            for n in range(1, len(ks) + 1):
                self.by.setdefault(ks[:n], []).append(p['ds'][:n])
        self.depth = max(len(k) for k in self.by)

    def plan(self, kinds):
        ds, k = [], 0
        while k < len(kinds):
            w = tuple(kinds[k:k + self.depth])
            while w not in self.by:
                w = w[:-1]
            ds += self.rng.choice(self.by[w])
            k += len(w)
        return ds


def lay(items, win, rng, nl):
    """items: [(k, kind, text)], k > 0 a command, k < 0 an include; returns (text, symbols)"""
    out, syms = [], []

    def put(t, s):
        out.append(t)
        syms.append(s)

    def brk(n):
        for i in range(n):
            put(nl if rng.random() < .9 else '  ' + nl, ['NL', 0, 0])
    ds = win.plan([i[1] for i in items])
    open_ = False
    for (k, kind, text), d in zip(items, ds):
        n = d['nl'] * rng.choice([1, 1, 1, 2, 3])
        if open_ and not (kind == 'p' and d['glue']):
            put('%', ['%', 0, 0])
            brk(n)
            open_ = False
        if kind == 'p' and not open_:
            put('%', ['%', 0, 0])
            if d['brk'][0]:
                brk(rng.choice([1, 1, 2]))
            open_ = True
        cuts = [i for i in range(1, len(text)) if ' ' not in text[i - 1:i + 1]]
        if kind == 'p' and d['brk'][1] and cuts:
            c = rng.choice(cuts)
            put(text[:c], ['w', k, 1])
            brk(1)
            put(text[c:], ['w', k, 2])
        else:
            put(text, ['w', k, 1])
            syms.append(['w', k, 2])
        put('*', ['*', 0, 0])
        if kind == 'p':
            if d['brk'][2]:
                brk(rng.choice([1, 1, 2]))
        else:
            brk(n)
    if open_:
        put('%', ['%', 0, 0])
        if rng.random() < .7:
            brk(1)
    return ''.join(out), syms
