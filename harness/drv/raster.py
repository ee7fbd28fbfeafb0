"""Pictures made by GerberCairoContext (spec/Raster.tla).  Lengths of the
specification are grid units; a task says how many of them make a unit of
length.  The observation is a sample of the picture's pixels."""
import os
import sys
import math
import random
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from obs import *
from io import BytesIO
import cairocffi
import gerber as lib
from gerber import primitives as P_, rs274x, excellon
from gerber.am_statements import AMThermalPrimitive
from gerber.cam import FileSettings
from gerber.ipc356 import IPC356_TestRecord
from gerber.layers import PCBLayer, DrillLayer, InternalLayer
from gerber.render.cairo_backend import GerberCairoContext
from gerber.render.render import RenderSettings
from gerber.render.theme import Theme


def build(o, u, k):
    """k: grid units per unit of length"""
    pts = [(float(x) / k, float(y) / k) for x, y in o['pts']]
    sz = [float(v) / k for v in o['sz']]
    kw = {'units': u, 'level_polarity': o['pol']}
    h = [float(v) / k for v in o['hole']]
    hk = {'hole_diameter': h[0]} if len(h) == 1 else {'hole_width': h[0], 'hole_height': h[1]} if h else {}
    n = o['k']
    if n == 'disc':
        return P_.Circle(pts[0], sz[0], **dict(kw, **hk))
    if n == 'drill':
        return P_.Drill(pts[0], sz[0], units=u)
    if n == 'rect':
        return P_.Rectangle(pts[0], sz[0], sz[1], **dict(kw, **hk))
    if n == 'obround':
        return P_.Obround(pts[0], sz[0], sz[1], **dict(kw, **hk))
    if n == 'poly':
        hole = {}
        if len(h) == 1:
            hole = {'hole_diameter': h[0]}
        elif h:
            hole = {'hole_width': h[0], 'hole_height': h[1]}
        return P_.Polygon(pts[0], o['n'], sz[0] / 2., rotation=o['rot'], **dict(kw, **hole))
    if n == 'cap':
        return P_.Line(pts[0], pts[1], P_.Circle((0, 0), sz[0], units=u), **kw)
    if n == 'line':
        return P_.Line(pts[0], pts[1], P_.Circle((0, 0), 0, units=u), **kw)
    if n == 'sweep':
        return P_.Line(pts[0], pts[1], P_.Rectangle((0, 0), sz[0], sz[1], units=u), **kw)
    if n == 'slot':
        return P_.Slot(pts[0], pts[1], sz[0], units=u)
    if n == 'arc':
        return P_.Arc(pts[0], pts[1], pts[2], o['dir'], P_.Circle((0, 0), sz[0] if sz else 0, units=u), o['q'], **kw)
    if n == 'contour':
        subs = [build(dict(s, pol=o['pol']), u, k) for s in o['sub']]
        closed = subs[0].start == subs[-1].end
        if closed and o.get('outline'):
            return P_.Outline(subs, **kw)
        return P_.Region(subs, **kw)
    if n == 'group':
        g = P_.AMGroup([], **kw)
        g.primitives = [build(dict(s, outline=True), u, k) for s in o['sub']]
        g.position = (0, 0)
        return g
    if n == 'thermal':
        a = math.radians(-o['rot'])          # macro shapes turn about the macro's origin
        x, y = pts[0]
        c = (x * math.cos(a) - y * math.sin(a), x * math.sin(a) + y * math.cos(a))
        return P_.AMGroup([AMThermalPrimitive(7, c, sz[0], sz[1], sz[2], o['rot'])], **kw)
    if n == 'record':
        return P_.TestRecord(pts[0], o['net'], 'top', **kw)
    raise ValueError(n)


def moved(o, v):
    return dict(o, pts=[[p[0] + v[0], p[1] + v[1]] for p in o['pts']], sub=[moved(s, v) for s in o['sub']])


def other(u, k):
    """the same lengths in the other units are other numbers"""
    return ('inch', k * 25.4) if u == 'metric' else ('metric', k / 25.4)


def seen(prims):
    """has been looked at and painted before"""
    for p in prims:
        if not isinstance(p, P_.TestRecord):
            p.bounding_box
        if not isinstance(p, (P_.Outline, P_.Region, P_.AMGroup)):
            getattr(p, 'vertices', None)
    ctx = GerberCairoContext(scale=2)
    ctx.render_layer(Stub('top', prims, ((-1, 1), (-2, 2))), settings=RenderSettings(color=(.3, .4, .5)))


def aged(o, u, k, past):
    """an object that has come to its place and units over time"""
    v = past['by'] if o['k'] not in ('thermal', 'record') else [0, 0]
    u0, k0 = other(u, k) if past['units'] and o['k'] != 'record' else (u, k)
    p = build(moved(o, [-v[0], -v[1]]), u0, k0)
    seen([p])
    if o['k'] in ('thermal', 'record'):
        (p.to_inch if u == 'inch' else p.to_metric)()
    elif past['order']:
        (p.to_inch if u == 'inch' else p.to_metric)()
        seen([p])
        p.offset(v[0] / k, v[1] / k)
    else:
        p.offset(v[0] / k0, v[1] / k0)
        seen([p])
        (p.to_inch if u == 'inch' else p.to_metric)()
    return p


class Stub(object):
    def __init__(self, cls, prims, bounds):
        self.layer_class, self.primitives, self.bounds = cls, prims, bounds


def rgb(c):
    return tuple(v / 255. for v in c)


def source(ly, t, u):
    """the layer's file, or None"""
    if ly['src'] in ('gerber', 'macro'):
        return rs274x.loads(ly['text'])
    if ly['src'] == 'drill':
        st = FileSettings(units='inch', format=tuple(ly['fmt']), zeros=ly['zeros'])
        return excellon.loads(ly['text'], settings=st)


def layer(ly, t, u, bounds, cls):
    f = source(ly, t, u)
    if f is None:
        u2 = ly.get('u2') or u           # in the other units the same lengths are other numbers
        k = t['k'] * (1 if u2 == u else 25.4 if u == 'metric' else 1 / 25.4)
        if ly.get('past'):
            return Stub(cls, [aged(o, u2, float(k), ly['past']) for o in ly['objs']], bounds)
        return Stub(cls, [build(o, u2, k) for o in ly['objs']], bounds)
    if ly.get('past'):
        seen(f.primitives)
        for _ in range(2):
            (f.to_metric if f.units == 'inch' else f.to_inch)()
            seen(f.primitives)
    if bounds is not None:
        return Stub(cls, f.primitives, bounds)
    x = PCBLayer('x', cls, f)
    return x


def image(ctx):
    s = cairocffi.ImageSurface.create_from_png(BytesIO(ctx.dump_str()))
    return picture(s)


def picture(s):
    w, h, st = s.get_width(), s.get_height(), s.get_stride()
    d = bytearray(s.get_data()[:])
    return w, h, st, d, s.get_format()


def at(im, i, j):
    o = j * im[2] + 4 * i
    return [im[3][o + 2], im[3][o + 1], im[3][o]]


def settings(ly):
    return RenderSettings(color=rgb(ly['color']), alpha=ly['alpha'] / 100., invert=ly['invert'], mirror=ly['mirror'])


def draw(t, ctx, out):
    u, k = t['u'], float(t['k'])
    fr = t['fr']
    if t['mode'] == 'cam':
        f = source(t['layers'][0], t, u)
        ctx.color = rgb(t['layers'][0]['color'])
        ctx.alpha = t['layers'][0]['alpha'] / 100.
        ctx.background_color = rgb(t['bg'])
        f.render(ctx, invert=t['layers'][0]['invert'])
        (a, b), (c, d) = f.bounding_box
        a, b, c, d = out['frame'] = [qq(v, k) for v in (a, b, c, d)]
        fr.update(x=a, y=c, w=b - a, h=d - c)
        return image(ctx)
    box = ((fr['x'] / k, (fr['x'] + fr['w']) / k), (fr['y'] / k, (fr['y'] + fr['h']) / k))
    bg = RenderSettings(color=rgb(t['bg']))
    if t['mode'] == 'layer':
        for ly in t['layers']:
            ctx.render_layer(layer(ly, t, u, None, 'top'), settings=settings(ly), bgsettings=bg, bounds=box)
        return image(ctx)
    # all layers at once, scaled to fit
    theme = {'background': bg}
    layers = []
    for n, ly in enumerate(t['layers']):
        b = t['bounds'][n]
        c = ly.get('cls') or 'class%d' % n
        theme[c] = settings(ly)
        layers.append(layer(ly, t, u, None if t.get('native') else ((b[0] / k, b[1] / k), (b[2] / k, b[3] / k)), c))
    if t.get('native'):
        out['bounds'] = bs = [[qq(v, k) for r in y.bounds or () for v in r] for y in layers]
        a, b, c, d = bs[0]
        fr.update(x=a, y=c, w=b - a, h=d - c)
    fd, fn = tempfile.mkstemp(suffix='.png')
    os.close(fd)
    if t.get('theme'):
        th = Theme('x', **dict((c, s) for c, s in theme.items()))
        ctx.render_layers(layers, fn, th, max_width=t['max'][0], max_height=t['max'][1])
    else:
        ctx.render_layers(layers, fn, theme, max_width=t['max'][0], max_height=t['max'][1])
    out['scale'] = int(ctx.scale[0]) if ctx.scale[0] == ctx.scale[1] == int(ctx.scale[0]) else -1
    s = cairocffi.ImageSurface.create_from_png(fn)
    os.unlink(fn)
    return picture(s)


def qq(v, k):
    try:
        f = float(v) * k
    except (TypeError, ValueError):
        return 0
    return int(round(f)) if abs(f) < 1e9 else 0


def sample(im, t, scale):
    w, h = im[0], im[1]
    rng = random.Random(t['seed'])
    pts = set()
    n = t['n']
    for _ in range(n // 2):
        pts.add((rng.randrange(w), rng.randrange(h)))
    # near changes of colour
    for _ in range(n):
        j = rng.randrange(h)
        if rng.random() < .5:
            row = [at(im, i, j) for i in range(w)]
            ch = [i for i in range(1, w) if row[i] != row[i - 1]]
            if ch:
                i = rng.choice(ch)
                for d in (-4, -3, 3, 4):
                    if 0 <= i + d < w:
                        pts.add((i + d, j))
        else:
            i = rng.randrange(w)
            col = [at(im, i, y) for y in range(h)]
            ch = [y for y in range(1, h) if col[y] != col[y - 1]]
            if ch:
                y = rng.choice(ch)
                for d in (-4, -3, 3, 4):
                    if 0 <= y + d < h:
                        pts.add((i, y + d))
        if len(pts) > n * 3 // 2:
            break
    # wherever an object has a point
    s = t['hot']
    rng.shuffle(s)
    fr = t['fr']
    px = fr['num'] / float(scale or fr['den'])
    for x, y, mir in s[:n]:
        i = int((fr['x'] + fr['w'] - x if mir else x - fr['x']) / px)
        j = int((fr['y'] + fr['h'] - y) / px)
        for d, e in ((0, 0), (rng.randrange(-5, 6), rng.randrange(-5, 6))):
            if 0 <= i + d < w and 0 <= j + e < h:
                pts.add((i + d, j + e))
    # rim of the picture
    for _ in range(6):
        pts.add((rng.choice([0, w - 1]), rng.randrange(h)))
        pts.add((rng.randrange(w), rng.choice([0, h - 1])))
    # the last row and column may be shown in part
    fw, fh = int(fr['w'] / px + .01), int(fr['h'] / px + .01)
    ps = sorted(p for p in pts if p[0] < fw and p[1] < fh)
    return [[i, j, at(im, i, j)] for i, j in ps]


def observe(t):
    out = {'err': '', 'w': 0, 'h': 0, 'scale': 0, 'px': [], 'same': True, 'ink': 0, 'frame': [], 'bounds': []}
    try:
        ctx = GerberCairoContext(scale=t['scale'])
        if t.get('after'):                   # the context has rendered something else before
            ctx.invert = True
            ctx.render_layer(Stub('top', [P_.Circle((0, 0), 1, units='inch', level_polarity='dark')], ((-1, 1), (-2, 2))),
                             settings=RenderSettings(color=(.3, .4, .5), alpha=.7, invert=True, mirror=True))
            ctx.clear()
        im = draw(t, ctx, out)
        if t['twice']:
            ctx.clear()
            im2 = draw(t, ctx, out)
            out['same'] = im[:4] == im2[:4]
        out['w'], out['h'] = im[0], im[1]
        if im[4] not in (0, 1):
            raise ValueError('format %s' % im[4])
        out['px'] = sample(im, t, out['scale'])
        if t['ink']:
            # white on black: the sum of all pixels
            out['ink'] = int(round(100. * sum(im[3][j * im[2] + 4 * i] for j in range(im[1]) for i in range(im[0])) / 255))
    except Exception as e:
        import traceback
        out['err'] = '%s: %s' % (type(e).__name__, e)
        out['tb'] = traceback.format_exc()[-600:]
    return out


main(observe)
