"""Pictures made by the command line (spec/Command.tla).  Every task is one run of
the command in a folder of its own; the observation is a sample of the pixels of
every picture it leaves there."""
import os
import sys
import shutil
import random
import subprocess
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from obs import *
import cairocffi
from gerber.common import read
from gerber.layers import load_layer
from gerber.render import theme
from gerber.render.render import RenderSettings

REPO = os.path.dirname(os.path.dirname(os.path.abspath(theme.__file__)))
ROOT = os.path.dirname(REPO)
CLASSES = ['topsilk', 'bottomsilk', 'topmask', 'bottommask', 'top', 'bottom', 'drill', 'ipc_netlist']


def shade(s):
    return {'color': [int(round(v * 255)) for v in s.color], 'alpha': int(round(s.alpha * 100))}


# the first internal layers of a theme that was not used before
THM = {}
for _n, _t in theme.THEMES.items():
    THM[_n] = dict((c, shade(_t.get(c))) for c in CLASSES if _t.get(c) is not None)
    THM[_n]['internal'] = [shade(_t.internal) for _ in range(12)]
    THM[_n]['other'] = shade(RenderSettings())
    THM[_n]['background'] = shade(_t.get('background'))['color']


def bounds(fn, k):
    try:
        b = load_layer(fn).bounds
        return [int(round(float(v) * k)) for r in b for v in r]
    except Exception:
        return []


def at(im, i, j):
    o = j * im[2] + 4 * i
    return [im[3][o + 2], im[3][o + 1], im[3][o]]


def spots(fns):
    """where the holes of drill files are, as parts of the outline's extent (only where to look)"""
    ls = []
    for fn in fns:
        try:
            ls.append(load_layer(fn))
        except Exception:
            pass
    res = []
    for o in ls:
        try:
            if o.layer_class != 'outline':
                continue
            (x0, x1), (y0, y1) = o.bounds
            for l in ls:
                if l.layer_class == 'drill':
                    for p in l.primitives:
                        (a, b), (c, d) = p.bounding_box
                        res.append((((a + b) / 2. - x0) / (x1 - x0), (y1 - (c + d) / 2.) / (y1 - y0)))
            break
        except Exception:
            pass
    return res


def sample(fn, t, seed, at_spots=(), mirrored=False):
    try:
        s = cairocffi.ImageSurface.create_from_png(fn)
    except Exception:                # a picture without extent
        with open(fn, 'rb') as f:
            b = f.read(8)
        return {'w': 0, 'h': 0, 'px': [], 'err': '' if not b or b == b'\x89PNG\r\n\x1a\n' else 'no PNG picture', 'same': True}
    w, h, st = s.get_width(), s.get_height(), s.get_stride()
    im = (w, h, st, bytearray(s.get_data()[:]))
    rng = random.Random(seed)
    n, pts = t['n'], set()
    for _ in range(n // 3):
        pts.add((rng.randrange(w), rng.randrange(h)))
    for a, b in rng.sample(list(at_spots), min(n // 3, len(at_spots))):
        i, j = int((1 - a if mirrored else a) * w), int(b * h)
        if 0 <= i < w and 0 <= j < h:
            pts.add((i, j))
    for _ in range(n):
        j = rng.randrange(h)
        row = [at(im, i, j) for i in range(w)]
        ch = [i for i in range(1, w) if row[i] != row[i - 1]]
        if ch:
            i = rng.choice(ch)
            for d in (-4, -3, 3, 4):
                if 0 <= i + d < w:
                    pts.add((i + d, j))
        if len(pts) > n + n // 3:
            break
    return {'w': w, 'h': h, 'px': [[i, j, at(im, i, j)] for i, j in sorted(pts) if i < w - 1 and j < h - 1], 'err': '', 'same': True}


def run(t):
    d = tempfile.mkdtemp()
    try:
        board = os.path.join(d, *t['path'])
        os.makedirs(board)
        work = os.path.join(d, 'work')
        os.makedirs(os.path.join(work, 'sub'))
        fns = []
        for name, text in t['files']:
            fns.append(os.path.join(board, name))
            with open(fns[-1], 'wb') as f:
                f.write(text.encode('latin-1'))
        bs = [bounds(fn, t['k']) for fn in fns]
        sp = spots(fns)
        what = fns if t['list'] else [board]
        if t['relative']:
            what = [os.path.relpath(x, work) for x in what]
        env = dict(os.environ, PYTHONPATH=ROOT, PYTHONDONTWRITEBYTECODE='1')
        before = sorted(os.listdir(board))
        p = subprocess.Popen([sys.executable, '-W', 'ignore', '-m', 'gerber'] + t['args'] + ['--'] * t['dashes'] + what, cwd=work, env=env,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        txt = p.communicate()[0].decode('latin-1')
        out = {'rc': p.returncode, 'text': txt[-300:] if p.returncode else '', 'bs': bs, 'thm': THM[t['theme']], 'copper': THM['Transparent Multilayer'], 'pics': {}, 'left': []}
        if sorted(os.listdir(board)) != before:
            out['left'].append('the board folder was changed')
        for r, _, fs in os.walk(work):
            for f in fs:
                n = os.path.relpath(os.path.join(r, f), work)
                stem = t['out']
                v = {stem + '.top.png': 'top', stem + '.bottom.png': 'bottom', stem + '.copper.png': 'copper', stem + '.png': 'list'}.get(n)
                if v is None:
                    out['left'].append(n)
                else:
                    out['pics'][v] = sample(os.path.join(r, f), t, t['seed'], sp, v == 'bottom')
        return out
    finally:
        shutil.rmtree(d)


main(run)
