"""C20: the command line.  spec/Command.tla, CommandMC (design: from files to
pictures), CommandTrace (pictures against Raster); contents from GerberGen and ExcellonGen."""
import c14
import c15
import gtext
import xtext

# names for the classes; the specification says what they stand for
NAMES = {'outline': [(['board'], 'gko'), (['board', 'outline'], 'gbr'), (['edge', 'cuts'], 'gbr')],
         'top': [(['board'], 'gtl'), (['board'], 'cmp'), (['f', 'cu'], 'gbr'), (['x', 'top'], 'pho')],
         'topmask': [(['board'], 'gts'), (['board', 'topmask'], 'gbr'), (['f', 'mask'], 'gbr')],
         'topsilk': [(['board'], 'gto'), (['board', 'topsilk'], 'gbr'), (['main'], 'plc')],
         'bottom': [(['board'], 'gbl'), (['board'], 'sol'), (['b', 'cu'], 'gbr'), (['x', 'bottom'], 'pho')],
         'bottommask': [(['board'], 'gbs'), (['board', 'bottommask'], 'gbr'), (['b', 'mask'], 'gbr')],
         'bottomsilk': [(['board'], 'gbo'), (['board', 'bottomsilk'], 'gbr'), (['main'], 'pls')],
         'toppaste': [(['board'], 'gtp'), (['board', 'toppaste'], 'gbr')],
         'drawing': [(['board'], 'fab'), (['board', 'assembly'], 'gbr')],
         'drill': [(['board'], 'drl'), (['board'], 'txt'), (['board'], 'gbr'), (['holes'], 'xln')],
         1: [(['board'], 'g1'), (['board'], 'gt1'), (['in1', 'cu'], 'gbr')],
         2: [(['board'], 'g2'), (['board', 'gp2'], 'gbr'), (['in2', 'cu'], 'gbr')],
         12: [(['internal', '12'], 'gbr')]}
BLACK = [0, 0, 0]


def outline(rng, u):
    """the rim of a board that is not symmetric, and sometimes a slot in it"""
    x, y = rng.choice([0, 0, 37, -120]), rng.choice([0, 0, -60, 85])
    w, h = rng.randrange(600, 900), rng.randrange(500, 900)
    a, b = rng.randrange(100, 300), rng.randrange(100, 300)
    ps = [(x, y), (x + w, y), (x + w, y + h - b), (x + w - a, y + h), (x, y + h), (x, y)]
    if rng.random() < .5:
        ps = ps[::-1]
    ap = {'sh': 'C', 's': [rng.choice([30, 60])], 'h': [], 'n': 0, 'rot': 0}
    co = lambda p, o: {'c': 'CO', 'f': 'G01', 'x': [p[0]], 'y': [p[1]], 'i': [], 'j': [], 'o': o}
    cs = [{'c': 'MO', 'u': u}, {'c': 'AD', 'd': 10, 'ap': ap}, {'c': 'SEL', 'd': 10}, co(ps[0], 'D02')] + [co(p, 'D01') for p in ps[1:]]
    if rng.random() < .5:
        cs += [co((x + a, y + b), 'D02'), co((x + a + 90, y + b), 'D01')]
    return cs


def content(rng, cls, u, d, gs, xs):
    """body of the trace and text of the file"""
    fmt = (3, d) if u == 'metric' or d < 4 else (2, d)
    if cls == 'outline':
        cs = outline(rng, u)
        style = {'nl': '\n', 'short': 0, 'g54': 0, 'units': 'MO', 'plus': 0}
        return c15.lay('gerber', cmds=cs), gtext.text(gtext.scale(cs, 1, 10 ** (5 - d)), fmt, 'L', None, style)
    if cls == 'drill':
        while True:
            prog = rng.choice(xs)
            cmds = [dict(c) for c in prog['cmds']]
            if prog['ext'] or not any(c['c'] == 'unit' for c in cmds) or any(c['c'] == 'hole' for c in cmds):
                continue
            g = xtext.NM[u] // 10 ** d
            k = max(1, min(40, 900 // xtext.maxco(cmds)))
            for c in cmds:
                if c['c'] == 'unit':
                    c['u'] = u
                if c['c'] == 'tdef':
                    c['d'] = g * 8 * c['d']
            st = {'dec': True, 'full': False, 'plus': False, 'ff': False, 'unit': 'word', 'header': not any(c['c'] in ('m48', 'hdr') for c in cmds)}
            p = xtext.Printer(rng, u, fmt, rng.choice(['leading', 'trailing']), k, st)
            return c15.lay('drill', cmds=cmds, g=k, u=g), p.text(cmds, '\n', True)
    ly = c15.gerber_layer(rng.choice(gs), rng, d, u, 900)
    return ly, ly['text']


def run(ck):
    rng = ck.rng
    q = ck.quick
    boards = sorted(ck.design('CommandMC', 'CommandMCq' if q else 'CommandMC', workers=4, timeout=900).lines('P'), key=str)
    gs = sorted(ck.tlc('GerberGen', 'GerberGenS', workers=4, simulate=60 if q else 600, depth=60).lines('P'), key=str)
    xs = sorted(ck.tlc('ExcellonGen', workers=4, simulate=40 if q else 400, depth=60).lines('P'), key=str)
    xs = [x for x in xs if not x['ext'] and any(c['c'] == 'unit' for c in x['cmds']) and not any(c['c'] == 'hole' for c in x['cmds'])]
    tasks, infos = [], []
    for n in range(160 if q else 1200):
        listed = n % 4 == 3
        ls = [dict(l) for l in rng.choice(boards)['layers']]
        if not listed and rng.random() < .6 and not any(l['cls'] == 'outline' for l in ls):
            ls.append({'cls': 'outline', 'num': 0})
        if not listed and rng.random() < .3:      # drills through copper
            ls += [{'cls': c, 'num': 0} for c in rng.choice([('drill', 'top', 'bottom'), ('drill', 'bottom', 'topmask')]) if not any(l['cls'] == c for l in ls)]
        if rng.random() < .5 and any(l['cls'] == 'drill' for l in ls):
            ls.append({'cls': 'drill', 'num': 0})
        u = 'inch' if listed or rng.random() < .7 else 'metric'
        d = 3 if u == 'inch' else 2
        rng.shuffle(ls)
        if listed:
            ls = ls[:4]
        files, fs, used = [], [], set()
        for l in ls:
            toks, ext = rng.choice(NAMES[l['num'] or l['cls']])
            f = {'toks': toks, 'ext': ext, 'style': rng.choice(['lower', 'lower', 'upper']), 'kind': 'drill' if l['cls'] == 'drill' else 'gerber'}
            name = c14.text(f, rng)
            if name.lower() in used:
                continue
            used.add(name.lower())
            body, txt = content(rng, l['cls'], u, d, gs, xs)
            files.append([name, txt])
            fs.append(dict(f, body=dict((x, body[x]) for x in ('src', 'objs', 'cmds', 'ext', 'g', 'u'))))
        if not listed and rng.random() < .3:
            files.append(['notes.txt', 'some text\nthat is no board file\n'])
            fs.append({'toks': ['notes'], 'ext': 'txt', 'style': 'lower', 'kind': 'junk', 'body': c15.lay()})
        theme = rng.choice(['', 'default', 'OSH Park', 'Blue'])
        out = rng.choice(['', '', 'pic', 'sub/my pic', 'a.b', 'my.svg', 'pic.png'])
        mx = rng.choice([(400, 300), (240, 460), (520, 200), (350, 350)]) if n % 30 != 1 else None
        args = []
        if theme:
            args += rng.choice([['--theme', theme], ['-t', theme]])
        if out:
            args += rng.choice([['--outfile', out], ['-o', out]])
        if mx:
            args += ['--width', str(mx[0]), '--height', str(mx[1])]
        if rng.random() < .2:
            args += ['-b', 'cairo']
        if rng.random() < .2:
            args += ['-v']
        task = {'path': ['boards', rng.choice(c14.DIRS)], 'files': files, 'list': listed, 'relative': rng.random() < .4, 'dashes': 1, 'args': args,
                'theme': theme or 'default', 'out': out or 'out', 'k': 10 ** d, 'n': 45 if q else 100, 'seed': rng.randrange(10 ** 9)}
        tasks.append(task)
        infos.append({'fs': fs, 'mx': list(mx or (1920, 1080)) + [10 ** d], 'listed': listed})
    obs = ck.drive('cli', tasks, procs=8, per=8)
    traces, inputs = [], []
    for t, i, o in zip(tasks, infos, obs):
        if o.get('err'):
            ck.fail('raised', {'error': o['err'], 'tb': o.get('tb'), 'input': t})
            continue
        if o.get('left'):
            ck.fail('stray-files', {'left': o['left'], 'input': t})
            continue
        err = '' if not o['rc'] else 'exit %s: %s' % (o['rc'], o['text'])
        base = {'files': i['fs'], 'bs': o['bs'], 'mx': i['mx'], 'm': 8, 'thm': o['thm'], 'bg': BLACK}
        traces.append(dict(base, c='made', view='list' if i['listed'] else 'top', obs={'err': err, 'made': sorted(o['pics']), 'w': 0, 'h': 0, 'px': [], 'same': True}))
        inputs.append(t)
        if err:
            continue
        for v, p in sorted(o['pics'].items()):
            thm = o['copper'] if v == 'copper' else o['thm']
            k = i['mx'][2]
            # grid units per pixel, at most
            big = max([b[1] - b[0] for b in o['bs'] if b] + [b[3] - b[2] for b in o['bs'] if b] + [1])
            px = max(1, big // max(1, max(p['w'], p['h'])) + 1) if v != 'list' else 4
            traces.append(dict(base, c='pic', view=v, thm=thm, bg=thm['background'], obs=p, m=px + 4))
            inputs.append(t)
    ck.notes.update(boards=len(boards), runs=len(tasks), pictures=sum(len(o.get('pics', [])) for o in obs))
    for k in (0, len(traces) // 2):
        ck.sample({'command': inputs[k]['args'], 'files': [f[0] for f in inputs[k]['files']], 'observed': {f: traces[k]['obs'][f] for f in ('w', 'h', 'err')}})
    v = ck.validate('CommandTrace', traces, batch=300, workers=8)
    ck.notes['pixels'] = sum(x['detail'].get('n', 0) for x in v if x['ok'] and isinstance(x['detail'], dict))
    ck.notes['pixels_decided'] = sum(x['detail'].get('decided', 0) for x in v if x['ok'] and isinstance(x['detail'], dict))
    ck.judge(traces, v, inputs=inputs)
