"""C15: pictures.  spec/Raster.tla, RasterMC (design: laws of coverage and
painting, all small scenes), RasterGen (random scenes), GerberGen, MacroGen and
ExcellonGen (pictures of files), RasterTrace (validation)."""
import gmacro
import gtext
import xtext

NM = xtext.NM
WHITE, BLACK = [255, 255, 255], [0, 0, 0]


def areas(objs):
    for o in objs:
        if o['k'] in ('contour', 'group'):
            for a in areas(o['sub']):
                yield a
        else:
            yield o


def hot(layers):
    res = []
    for ly in layers:
        for o in areas(ly['objs']):
            res += [[p[0], p[1], ly['mirror']] for p in o['pts']]
        for c in ly['cmds']:
            if c['c'] == 'CO' and c['x'] and c['y']:
                res.append([c['x'][0], c['y'][0], ly['mirror']])
            elif c['c'] in ('xy', 'g01', 'slot') and c['x'] and c['y']:
                res.append([c['x'][0] * ly['g'], c['y'][0] * ly['g'], ly['mirror']])
            elif c['c'] == 'FL':
                res.append([c['p'][0] // max(1, ly['u']), c['p'][1] // max(1, ly['u']), ly['mirror']])
    return res


def lay(src='areas', objs=(), cmds=(), ext=(), g=1, u=1, invert=False, mirror=False, color=WHITE, alpha=100, **kw):
    return dict({'src': src, 'objs': list(objs), 'cmds': list(cmds), 'ext': list(ext), 'g': g, 'u': u, 'invert': invert,
                 'mirror': mirror, 'color': list(color), 'alpha': alpha}, **kw)


class Scenes(object):
    def __init__(self, ck, n):
        self.ck, self.rng, self.n = ck, ck.rng, n
        self.tasks, self.traces = [], []

    def color(self):
        return [self.rng.randrange(256) for _ in 'rgb']

    def add(self, layers, fr, k, u='inch', mode='layer', bg=BLACK, px=None, ink=0, twice=None, bounds=(), mx=(), **kw):
        """k: grid units per unit of length; px: wanted grid units per pixel"""
        rng = self.rng
        if mode == 'layers':
            num, den = k, 1
            px = max(1, max(fr['w'] // 100, fr['h'] // 100))
        else:
            # num/den grid units per pixel = k / scale
            den = max(2, int(2 * k / px))
            num = 2 * k
        fr = dict(fr, num=num, den=den)
        mirrored = any(l['mirror'] for l in layers)
        t = {'layers': layers, 'k': k, 'u': u, 'mode': mode, 'bg': bg, 'fr': fr, 'scale': den / 2. if mode != 'layers' else 300,
             'seed': rng.randrange(10 ** 9), 'n': self.n, 'hot': hot(layers), 'twice': rng.random() < .15 if twice is None else twice,
             'ink': 1 if ink else 0, 'bounds': list(bounds), 'max': list(mx), 'after': rng.random() < .1}
        t.update(kw)
        m = int(px) + (8 if any(l['src'] == 'macro' for l in layers) else 3)
        tr = {'layers': [dict((f, l[f]) for f in ('src', 'objs', 'cmds', 'ext', 'g', 'u', 'invert', 'mirror', 'color', 'alpha')) for l in layers],
              'mode': mode, 'fr': fr, 'mx': (list(mx) + [k]) if mx else [], 'bounds': list(bounds), 'bg': bg, 'm': m, 'ink': ink}
        tr['mixed'] = len(set(l.get('u2', u) for l in layers)) > 1
        for l in tr['layers']:          # a slot is a moved disc, a drill a disc
            l['objs'] = [dict(o, k={'slot': 'cap', 'drill': 'disc'}.get(o['k'], o['k'])) for o in l['objs']]
        for l in layers:                # its objects, or file, have been painted before, elsewhere or in other units
            if rng.random() < .2:
                l['past'] = {'by': [rng.randrange(-900, 900), rng.randrange(-900, 900)] if rng.random() < .7 else [0, 0],
                             'units': rng.random() < .5, 'order': rng.random() < .5}
        self.tasks.append(t)
        self.traces.append(tr)


def design(sc, scenes):
    """the scenes of the design run, each in one picture"""
    rng = sc.rng
    for objs in scenes:
        k = rng.choice([100, 300, 1000, 2540])
        o0 = (rng.choice([-600, 0, 0, 351]), rng.choice([-777, 0, 0, 113]))
        objs = [moved(o, o0) for o in objs]
        fr = {'x': o0[0] + rng.randrange(-40, 40), 'y': o0[1] + rng.randrange(-40, 40), 'w': rng.randrange(330, 480), 'h': rng.randrange(330, 480)}
        sc.add([lay(objs=objs, invert=rng.random() < .2, mirror=rng.random() < .2)], fr, k, px=rng.choice([2, 2.5, 3.3, 4]),
               u=rng.choice(['inch', 'metric']))


def moved(o, v):
    return dict(o, pts=[[p[0] + v[0], p[1] + v[1]] for p in o['pts']], sub=[moved(s, v) for s in o['sub']])


def ink(sc, scenes):
    """thin and small objects keep their weight"""
    rng = sc.rng
    for objs in scenes:
        o = objs[-1]
        if o['k'] not in ('disc', 'rect', 'obround', 'cap', 'sweep') or o['hole'] or o['pol'] != 'dark':
            continue
        px = rng.choice([20, 50, 100])
        f = rng.choice([1, 1, 3]) if px == 20 else 1
        o = dict(o, sz=[max(1, v // f) for v in o['sz']])
        k = rng.choice([1000, 2000, 10000])
        sc.add([lay(objs=[o])], {'x': -300 - rng.randrange(50), 'y': -300 - rng.randrange(50), 'w': 1000, 'h': 1000}, k, px=px,
               ink=px * px if (2 * k) % px == 0 else 0)


def random_scenes(sc, scenes):
    rng = sc.rng
    for s in scenes:
        layers = [lay(**dict((f, l[f]) for f in ('objs', 'invert', 'mirror', 'color', 'alpha'))) for l in s['layers']]
        for l in layers:
            for o in l['objs']:
                if o['k'] == 'disc' and not o['hole'] and o['pol'] == 'dark' and rng.random() < .3:
                    o['k'] = 'drill'
                if o['k'] == 'slot' and o['pol'] == 'clear':        # slots are always dark
                    o['k'] = 'cap'
        k = rng.choice([100, 300, 1000, 2540, 10000])
        u = rng.choice(['inch', 'inch', 'metric'])
        if rng.random() < .65:
            sc.add(layers, s['frame'], k, u=u, bg=s['bg'], px=rng.choice([6, 7.5, 9, 12]))
        else:
            # scaled to fit: the frame is the first layer's, the scale that of all of them
            bs = []
            for l in layers:
                f = s['frame']
                b = [f['x'] - rng.choice([0, 0, 50, -80]), f['x'] + f['w'] + rng.choice([0, 0, 60, -50]),
                     f['y'] - rng.choice([0, 0, 70, -90]), f['y'] + f['h'] + rng.choice([0, 0, 20, -70])]
                bs.append(b)
            fr = {'x': bs[0][0], 'w': bs[0][1] - bs[0][0], 'y': bs[0][2], 'h': bs[0][3] - bs[0][2]}
            k = rng.choice([100, 300, 1000])
            mx = rng.choice([(200, 150), (120, 260), (250, 90), (180, 180)])
            sc.add(layers, fr, k, u=u, mode='layers', bg=s['bg'], bounds=bs, mx=mx)


def classes(sc, scenes):
    """layers of a board, with a theme"""
    rng = sc.rng
    names = ['top', 'bottom', 'topmask', 'bottommask', 'topsilk', 'bottomsilk', 'drill']
    for s in scenes:
        layers = [lay(**dict((f, l[f]) for f in ('objs', 'invert', 'mirror', 'color', 'alpha'))) for l in s['layers']]
        cs = rng.sample(names, len(layers))
        for l, c in zip(layers, cs):
            l['cls'] = c
        f = s['frame']
        b = [f['x'], f['x'] + f['w'], f['y'], f['y'] + f['h']]
        sc.add(layers, dict(f), 300, mode='layers', bg=s['bg'], bounds=[b] * len(layers), mx=(200, 160), theme=True)


def gerber_layer(cmds, rng, d, u, top, **kw):
    """top: largest coordinate, in grid units"""
    k = max(1, min(40, top // gtext.maxco(cmds)))
    c = gtext.scale(cmds, k, rng.choice([3, 6, 10]))
    fmt = (3, d) if u == 'metric' or d < 4 else (2, d)
    style = {'nl': '\n', 'short': 0, 'g54': 0, 'units': 'MO', 'plus': 0}
    c = [dict(x, u=u) if x['c'] == 'MO' else x for x in c]
    txt = gtext.text(gtext.scale(c, 1, 10 ** (5 - d)), fmt, 'L', None, style)
    return lay('gerber', cmds=c, text=txt, **kw)


def drill_layer(prog, rng, d, u, top, **kw):
    cmds, ext = [dict(c) for c in prog['cmds']], prog['ext']
    if ext or not any(c['c'] == 'unit' for c in cmds):
        return None
    g = NM[u] // 10 ** d
    k = max(1, min(40, top // xtext.maxco(cmds)))
    for c in cmds:
        if c['c'] == 'unit':
            c['u'] = u
        if c['c'] in ('tdef', 'hole'):
            c['d'] = g * 8 * c['d'] if c['c'] == 'tdef' else 25400 * 100
    fmt = (3, d) if u == 'metric' or d < 4 else (2, d)
    if any(c['c'] == 'hole' for c in cmds):
        return None
    st = {'dec': False, 'full': False, 'plus': False, 'ff': False, 'unit': 'word', 'header': not any(c['c'] in ('m48', 'hdr') for c in cmds)}
    zeros = rng.choice(['leading', 'trailing'])
    p = xtext.Printer(rng, u, fmt, zeros, k, st)
    return lay('drill', cmds=cmds, g=k, u=g, text=p.text(cmds, '\n', True), fmt=fmt, zeros=zeros, **kw)


def units(sc, scenes):
    """FINDING (mixed-units): the same content twice, in inches and in millimetres"""
    rng = sc.rng
    for s in scenes:
        l = s['layers'][0]
        a = lay(**dict((f, l[f]) for f in ('objs', 'color')))
        b = dict(a, color=sc.color(), u2=rng.choice(['metric', 'metric', 'inch']))
        sc.add([a, b] if rng.random() < .5 else [b, a], s['frame'], 1000, bg=s['bg'], px=9)


def records(sc, n):
    """test records of a netlist: a spot and a label"""
    rng = sc.rng
    for _ in range(n):
        px = rng.choice([2, 2.5, 1.25])
        x, y = rng.randrange(-400, 200), rng.randrange(-400, 200)
        w, h = rng.randrange(250, 400), rng.randrange(250, 400)
        objs = []
        for _ in range(rng.randrange(1, 5)):
            net = rng.choice(['', 'A', 'GND', 'N$12', 'CLK_IN'])
            objs.append({'k': 'record', 'pts': [[x + rng.randrange(w), y + rng.randrange(h)]], 'sz': [15, int(10 * px * len(net)), int(44 * px)],
                         'hole': [], 'n': 0, 'rot': 0, 'dir': '', 'q': '', 'sub': [], 'pol': 'dark', 'net': net})
        sc.add([lay(objs=objs, color=sc.color())], {'x': x, 'y': y, 'w': w, 'h': h}, 1000, bg=sc.color(), px=px)


def frame_for(cmds, rng, f=1):
    xs = [v * f for c in cmds if c['c'] in ('CO', 'xy', 'g01', 'slot') for v in c['x']] or [0]
    ys = [v * f for c in cmds if c['c'] in ('CO', 'xy', 'g01', 'slot') for v in c['y']] or [0]
    x, y = min(xs) - rng.randrange(0, 120), min(ys) - rng.randrange(0, 120)
    return {'x': x, 'y': y, 'w': min(1900, max(300, max(xs) - x + rng.randrange(0, 120))),
            'h': min(1900, max(300, max(ys) - y + rng.randrange(0, 120)))}


def files(sc, gs, ms, xs):
    rng = sc.rng
    for n, g in enumerate(gs):
        u = rng.choice(['inch', 'inch', 'metric'])
        d = rng.choice([3, 4] if u == 'inch' else [2, 3])
        st = dict(invert=rng.random() < .2, color=sc.color(), alpha=rng.choice([100, 100, 60]))
        mirror = rng.random() < .2
        if n % 4 == 0:
            ly = gerber_layer(g, rng, d, u, 900, **dict(st, mirror=False))
            sc.add([ly], {'x': 0, 'y': 0, 'w': 1, 'h': 1}, 10 ** d, u=u, mode='cam', bg=sc.color(), px=rng.choice([8, 10, 13]))
            continue
        ls = [gerber_layer(g, rng, d, u, 900, **dict(st, mirror=mirror))]
        if n % 4 == 1:
            o = gerber_layer(rng.choice(gs), rng, d, u, 900, color=sc.color(), alpha=rng.choice([100, 50]), mirror=rng.random() < .3, invert=rng.random() < .3)
            ls.append(o)
        if n % 2 and xs:
            o = drill_layer(rng.choice(xs), rng, d, u, 900, color=sc.color())
            if o:
                ls.append(o)
        if n % 4 == 3 and u == 'inch':
            # the layers' own bounds, as far as the reader knows them
            sc.add(ls, {'x': 0, 'y': 0, 'w': 1, 'h': 1}, 10 ** d, u=u, mode='layers', bg=sc.color(), native=True,
                   bounds=[[0, 1, 0, 1]] * len(ls), mx=rng.choice([(200, 160), (150, 300)]))
            continue
        sc.add(ls, frame_for(ls[0]['cmds'], rng), 10 ** d, u=u, bg=sc.color(), px=rng.choice([8, 10, 13]))
    for n, x in enumerate(xs):
        u = rng.choice(['inch', 'metric'])
        d = 4 if u == 'inch' else 3
        ly = drill_layer(x, rng, d, u, 900, color=sc.color(), mirror=n % 3 > 0 and rng.random() < .3, invert=rng.random() < .2)
        if ly is None:
            continue
        if n % 3 == 0:
            sc.add([ly], {'x': 0, 'y': 0, 'w': 1, 'h': 1}, 10 ** d, u=u, mode='cam', bg=sc.color(), px=rng.choice([8, 10, 13]))
        else:
            sc.add([ly], frame_for(x['cmds'], rng, ly['g']), 10 ** d, u=u, bg=sc.color(), px=rng.choice([8, 10, 13]))
    for m in ms:
        if any(b['code'] == 6 for c in m if c['c'] == 'AM' for b in c['blocks']):
            continue
        fl = [c for c in m if c['c'] == 'FL']
        if not fl:
            continue
        q = rng.choice([15, 25, 40])
        c = rng.choice(fl)['p']
        ly = lay('macro', cmds=m, u=q, text=gmacro.text(m, rng).replace('MOMM', 'MOIN'), color=sc.color(), invert=rng.random() < .2)
        w, h = rng.randrange(500, 1500), rng.randrange(500, 1500)
        fr = {'x': c[0] // q - w // 2 + rng.randrange(-100, 100), 'y': c[1] // q - h // 2 + rng.randrange(-100, 100), 'w': w, 'h': h}
        if 1000 % q:
            continue
        under = lay(objs=[{'k': 'rect', 'pts': [[fr['x'] + w // 2, fr['y'] + h // 2]], 'sz': [w - 100, h - 140], 'hole': [], 'n': 0, 'rot': 0,
                           'dir': '', 'q': '', 'sub': [], 'pol': 'dark'}], color=sc.color())
        sc.add([under, ly] if rng.random() < .4 else [ly], fr, 1000 // q, bg=sc.color(), px=rng.choice([6, 8, 10]))


def run(ck):
    rng = ck.rng
    q = ck.quick
    sc = Scenes(ck, 90 if q else 200)
    scenes = sorted(ck.design('RasterMC', workers=4, timeout=600).lines('P'), key=str)
    rs = sorted(ck.tlc('RasterGen', workers=1, simulate=500 if q else 6000, depth=40).lines('P'), key=str)
    gs = sorted(ck.tlc('GerberGen', workers=4, simulate=60 if q else 1000, depth=60).lines('P'), key=str)
    ms = sorted(ck.tlc('MacroGen', workers=4, simulate=40 if q else 600, depth=80).lines('P'), key=str)
    xs = sorted(ck.tlc('ExcellonGen', workers=4, simulate=40 if q else 600, depth=60).lines('P'), key=str)
    ck.notes['design_scenes'] = len(scenes)
    ck.notes['random_scenes'] = len(rs)
    ck.notes['files'] = len(gs) + len(ms) + len(xs)
    design(sc, rng.sample(scenes, min(len(scenes), 500 if q else 100000)))
    ink(sc, [s for s in scenes if len(s) == 1] * (4 if q else 20))
    random_scenes(sc, rs)
    classes(sc, rs[::5])
    files(sc, gs, ms, xs)
    records(sc, 20 if q else 300)
    units(sc, rs[3::20])
    obs = ck.drive('raster', sc.tasks, procs=8)
    for o in obs:
        for k, v in (('w', 0), ('h', 0), ('scale', 0), ('px', []), ('same', True), ('ink', 0), ('frame', []), ('bounds', [])):
            o.setdefault(k, v)      # no answer at all
    for t, tr, o in zip(sc.tasks, sc.traces, obs):
        if o['frame']:
            a, b, c, d = o.pop('frame')
            tr['fr'].update(x=a, y=c, w=b - a, h=d - c)
        if o['bounds']:
            tr['bounds'] = [b for b in o['bounds'] if b]     # drill files know none
            a, b, c, d = o['bounds'][0]
            tr['fr'].update(x=a, y=c, w=b - a, h=d - c)
            tr['m'] = max(tr['m'], 3 + tr['fr']['num'] // max(1, o['scale']))
        o.pop('bounds')
        o.pop("tb", None)
        tr['obs'] = o
    for k in (0, len(sc.traces) // 2, len(sc.traces) - 1):
        ck.sample({'layers': sc.tasks[k]['layers'], 'frame': sc.traces[k]['fr'], 'observed': {f: obs[k][f] for f in ('w', 'h', 'err')}})
    v = ck.validate('RasterTrace', sc.traces, batch=600, workers=8)
    ck.notes['pixels'] = sum(x['detail'].get('n', 0) for x in v if x['ok'])
    ck.notes['pixels_decided'] = sum(x['detail'].get('decided', 0) for x in v if x['ok'])
    ck.judge(sc.traces, v, inputs=sc.tasks)
