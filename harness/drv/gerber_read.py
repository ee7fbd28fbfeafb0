import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from obs import *
import gerber
from gerber import rs274x


def handle(t):
    f = rs274x.loads(t['text']) if not t.get('detect') else gerber.loads(t['text'])
    sc = Scale(t['cs'], t['ss'])
    (x0, x1), (y0, y1) = f.bounds
    return {'units': str(f.units), 'img': image(f.primitives, sc),
            'extent': [[q(v, sc.cs, 1e-3) for v in r] if r[0] <= r[1] else [] for r in ((x0, x1), (y0, y1))],
            'size': [q(v, sc.cs, 1e-3) for v in f.size] if x0 <= x1 and y0 <= y1 else []}


main(handle)
