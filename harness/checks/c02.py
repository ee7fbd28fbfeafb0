"""C02: coordinate codec.  spec/Codec.tla, CodecMC (design + classes), CodecTrace."""


def dstr(neg, v, nint):
    return ('-' if neg else '') + ''.join(map(str, v[:nint])) + '.' + ''.join(map(str, v[nint:]))


def run(ck):
    rng = ck.rng
    r = ck.design('CodecMC', workers=1)
    cases = sorted(r.lines('P'), key=str)
    if not ck.quick:
        # further representatives of every class
        extra = []
        for c in cases:
            for _ in range(4):
                w = len(c['v'])
                nz = [k for k in range(w) if c['v'][k]]
                v = list(c['v'])
                if nz:
                    for k in range(nz[0], nz[-1] + 1):
                        v[k] = rng.randrange(1 if k in (nz[0], nz[-1]) else 0, 10)
                extra.append(dict(c, v=v))
        cases += extra
    traces, tasks = [], []

    def add(tr, **kw):
        traces.append(tr)
        t = {k: tr[k] for k in ('kind', 'via', 'fmt', 'zs')}
        t.update(kw)
        tasks.append(t)

    rvias = ['func', 'func', 'gerber', 'gerberij', 'excellon', 'excellony', 'repeat', 'slot', 'end']
    wvias = ['func', 'func', 'gerber', 'excellon', 'slot', 'end', 'repeat']
    for c in cases:
        i, d = c['fmt']
        v, neg, zs = c['v'], c['neg'], c['zs']
        zero = not any(v)
        if zero and neg:
            continue
        # a legal suppressed string: some or all of the suppressible zeros dropped
        s = list(v)
        if zs == 'leading':
            while len(s) > 1 and s[0] == 0 and rng.random() < .93:
                s.pop(0)
        else:
            while len(s) > 1 and s[-1] == 0 and rng.random() < .93:
                s.pop()
        txt = ('-' if neg else rng.choice(['', '', '+'])) + ''.join(map(str, s))
        for via in {rng.choice(rvias), rng.choice(rvias)}:
            add({'kind': 'read', 'via': via, 'fmt': c['fmt'], 'zs': zs, 'neg': neg, 'str': s}, text=txt)
        # writing, exactly representable
        via = rng.choice(wvias)
        if via == 'repeat' and zero:
            via = 'func'
        add({'kind': rng.choice(['write', 'write', 'rw']) if via == 'func' else 'write', 'via': via,
             'fmt': c['fmt'], 'zs': zs, 'neg': neg, 'v': v, 'e': 0}, value=dstr(neg, v, i))
        # writing a value with more decimals (total digits within float precision)
        if rng.random() < .5 and not all(x == 9 for x in v):
            e = rng.choice([1, 2, 3])
            if i + d + e <= 13:
                ext = [rng.randrange(10) for _ in range(e)]
                if ext[0] == 5 and not any(ext[1:]):
                    ext[0] = 6     # exact ties are not exact in binary
                add({'kind': 'write', 'via': rng.choice(['func', 'gerber', 'excellon']), 'fmt': c['fmt'], 'zs': zs,
                     'neg': neg, 'v': v + ext, 'e': e}, value=dstr(neg, v + ext, i))
        # explicit decimal point: taken at face value whatever the format
        if rng.random() < .2:
            j = rng.choice(cases)
            txt = dstr(neg, v, i)
            if rng.random() < .5:
                txt = txt.rstrip('0')
            if rng.random() < .3 and not neg:
                txt = txt.lstrip('0')
                if txt == '.':
                    txt = '0.'
            add({'kind': 'dec', 'via': rng.choice(['func', 'excellon', 'excellony']), 'fmt': j['fmt'], 'zs': j['zs'],
                 'neg': neg, 'v': v}, text=txt, dfmt=[i, d])
    obs = ck.drive('codec', tasks)
    for t, o in zip(traces, obs):
        t['obs'] = o
    ck.notes['class_cases'] = len(cases)
    for k in (1, len(traces) // 2, len(traces) - 2):
        ck.sample({'call': tasks[k], 'observed': obs[k]})
    ck.judge(traces, ck.validate('CodecTrace', traces, batch=20000), inputs=tasks)
