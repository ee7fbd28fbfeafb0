"""C14: boards.  spec/Board.tla, BoardMC (design), BoardGen (directories), BoardTrace."""
PAIRS = {('f', 'cu'), ('b', 'cu'), ('f', 'silks'), ('b', 'silks'), ('f', 'mask'), ('b', 'mask'), ('f', 'paste'), ('b', 'paste'), ('edge', 'cuts')} | \
    {('in%d' % k, 'cu') for k in range(1, 5)}
DIRS = ['gerbers', 'rev7', 'board.gtl', 'top', 'In3.Cu', 'sm-01.gbs', 'g2', 'My Files', 'layer1', '2014-05', 'bottom.silk', 'in.1']


def case(tok, style):
    return {'lower': tok, 'upper': tok.upper(), 'cap': tok[:1].upper() + tok[1:]}[style]


def stem(f, rng):
    r = ''
    for k, t in enumerate(f['toks']):
        if k:
            r += rng.choice((['-', '_'] if not f['ext'] else ['.', '-', '_', '.']) if (f['toks'][k - 1], t) in PAIRS else ['-'] if not f['ext'] else ['.', '-'])
        r += case(t, f['style'])
    return r


def text(f, rng, st=None):
    s = st or stem(f, rng)
    return s + ('.' + (case(f['ext'], f['style']) if f['style'] != 'cap' or rng.random() < .5 else f['ext']) if f['ext'] else '')


def path(rng):
    return [rng.choice(DIRS) for _ in range(rng.randint(1, 3))]


def run(ck):
    rng = ck.rng
    names = ck.design('BoardMC', 'BoardMCn', workers=4).lines('P')
    stacks = ck.design('BoardMC', 'BoardMCq' if ck.quick else 'BoardMC', workers=4, timeout=1500).lines('P')
    dirs = ck.tlc('BoardGen', workers=4, simulate=250 if ck.quick else 4000, depth=30).lines('P')
    seen, uniq = set(), []
    for d in sorted(dirs, key=str):
        if str(d) not in seen:
            seen.add(str(d))
            uniq.append(d)
    tasks, traces = [], []
    for p in sorted(stacks, key=str):
        tasks.append({'c': 'stack', 'given': p['given']})
        traces.append({'c': 'stack', 'given': p['given']})
    for p in sorted(names, key=str):
        f = p['name']
        b = text(f, rng)
        tasks.append({'c': 'name', 'texts': [b, '/nowhere/' + '/'.join(path(rng)) + '/' + text(f, rng), './' + b]})
        traces.append({'c': 'name', 'name': f})
    for p in uniq:
        fs = p['files']
        stems = [stem(f, rng) for f in fs]
        texts = [text(f, rng, s) for f, s in zip(fs, stems)]
        texts = ['.' + x if f['kind'] == 'dot' else 'Thumbs.db' if f['kind'] == 'os' else x for x, f in zip(texts, fs)]
        if len(set(texts)) != len(texts):
            continue
        tasks.append({'c': 'dir', 'path': path(rng), 'texts': texts, 'files': fs, 'relative': rng.random() < .2, 'slash': rng.random() < .3,
                      'name': rng.choice(['', '', '', 'my board']), 'verbose': rng.random() < .2})
        like = [(a + 1, b + 1) for b in range(len(fs)) for a in range(b) if fs[a]['kind'] == fs[b]['kind'] in ('gerber', 'drill', 'ipc')]
        if like and rng.random() < .5:
            same = [x for x in like if fs[x[0] - 1]['ext'] == fs[x[1] - 1]['ext'] or fs[x[0] - 1]['toks'] == fs[x[1] - 1]['toks']]
            tasks[-1]['twin'] = rng.choice(same or like)
        if tasks[-1]['relative']:
            tasks[-1]['name'] = ''
        traces.append({'c': 'dir', 'files': fs, 'stems': stems if not tasks[-1]['name'] else ['']})
        if tasks[-1]['name']:
            traces[-1]['stems'] = [''] * len(fs)
    ck.notes.update(names=len(names), stacks=len(stacks), directories=len(uniq))
    obs = ck.drive('board', tasks)
    for t, o in zip(traces, obs):
        t['obs'] = o
    for k in (0, len(stacks), len(traces) - 1):
        ck.sample({'task': tasks[k], 'observed': obs[k]})
    v = ck.validate('BoardTrace', traces)
    ck.judge(traces, v, inputs=tasks)
