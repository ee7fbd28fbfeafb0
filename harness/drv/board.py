"""Classification, stacks and boards (spec/Board.tla)."""
import os
import random
import shutil
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from obs import *
from gerber.layers import guess_layer_class, sort_layers, PCBLayer, InternalLayer, DrillLayer
from gerber.pcb import PCB


def board(p, ix):
    """ix: layer -> index of what it was made from"""
    try:
        outline = p.outline_layer
        return {'layers': [ix(l) for l in p.layers], 'frombottom': [ix(l) for l in sort_layers(list(p.layers), from_top=False)], 'count': len(p),
                'top': [ix(l) for l in p.top_layers], 'bottom': [ix(l) for l in p.bottom_layers], 'copper': [ix(l) for l in p.copper_layers],
                'ncopper': p.layer_count, 'drill': [ix(l) for l in p.drill_layers], 'outline': [] if outline is None else [ix(outline)]}
    finally:
        pass


def stack(t):
    ls = []
    for l in t['given']:
        if l['cls'] == 'internal':
            ls.append(InternalLayer(order=l['num']))
        elif l['cls'] == 'drill':
            ls.append(DrillLayer(layers=list(l['sides'])))
        else:
            ls.append(PCBLayer(layer_class=l['cls']))
    ids = {id(l): k + 1 for k, l in enumerate(ls)}
    o = board(PCB(list(ls)), lambda l: ids.get(id(l), -1))
    o['frombottom'] = [ids.get(id(l), -1) for l in sort_layers(list(ls), from_top=False)]
    return o


CONTENT = {'junk': b'some text\nthat is no board file\n', 'empty': b'', 'binary': b'\x89PNG\r\n\x1a\n\x00\xff\xfe\x80%FSLAX24Y24*%\n',
           'badgerber': b'%FSLAX24Y24*%\n%MOIN*%\n%ADD10C,abc*%\nD10*\nX0Y0D03*\nM02*\n',
           'baddrill': b'M48\nFMAT,7\nINCH,TZ\n%\nT1\nX1Y1\nM30\n', 'badipc': b'P  JOB\n327GND\n', 'os': b'%FSLAX24Y24*%\n%MOIN*%\n%ADD10C,0.1*%\nD10*\nX0Y0D03*\nM02*\n'}


def content(kind, n):
    if kind in ('gerber', 'dot'):
        return b'%%FSLAX24Y24*%%\n%%MOIN*%%\n%%ADD10C,0.1*%%\nD10*\nX%d0000Y%d0000D03*\nM02*\n' % (n, n)
    if kind == 'drill':
        return b'M48\nINCH,TZ\nT01C0.03\n%%\nT01\nX%d.0Y%d.0\nM30\n' % (n, n)
    if kind == 'ipc':
        return ('P  JOB x\n327%-14s   %-6s-%-4sM      A01X+%06dY+%06dX0100Y0100R000 S0\n999\n' % ('GND', 'C1', '1', n * 10000, n * 10000)).encode()
    return CONTENT[kind]


def files(t):
    d = tempfile.mkdtemp()
    twin = t.get('twin')

    def base(n):                 # of two files with the same content: the first
        return twin[0] if twin and n == twin[1] else n
    try:
        root = os.path.join(d, *t['path'])
        os.makedirs(root)
        for k, (name, f) in enumerate(zip(t['texts'], t['files'])):
            fn = os.path.join(root, name)
            if f['kind'] == 'folder':
                os.makedirs(fn)
            else:
                with open(fn, 'wb') as h:
                    h.write(content(f['kind'], base(k + 1)))
        if t['relative']:
            here = os.getcwd()
            os.chdir(os.path.dirname(root))
            try:
                p = PCB.from_directory(os.path.basename(root), verbose=t['verbose'])
            finally:
                os.chdir(here)
        else:
            p = PCB.from_directory(root + ('/' if t['slash'] else ''), t['name'] or None, verbose=t['verbose'])
        texts = t['texts']

        def ix(l):
            b = os.path.basename(l.filename)
            return texts.index(b) + 1 if b in texts else -1

        def mark(l):
            ps = list(l.primitives)
            n = int(round(ps[0].position[0])) if len(ps) == 1 else -2
            return ix(l) if n == base(ix(l)) else n
        o = board(p, ix)
        cls = ['none'] * len(texts)
        from gerber.common import read
        for k, f in enumerate(t['files']):
            if f['kind'] in ('gerber', 'drill', 'ipc'):
                cls[k] = PCBLayer.from_cam(read(os.path.join(root, texts[k]))).layer_class
        for l in p.layers:
            if ix(l) > 0 and cls[ix(l) - 1] != l.layer_class:
                cls[ix(l) - 1] = 'unstable: %s/%s' % (cls[ix(l) - 1], l.layer_class)
        o.update(cls=cls, files=[ix(l) for l in p.layers], content=[mark(l) for l in p.layers], name=p.name if not t['name'] else '')
        if t['name'] and p.name != t['name']:
            o['err'] = 'board name %r not taken' % t['name']
        b = p.board_bounds
        o['bounds'] = [] if b is None else [int(round(b[0][0]))]
        if twin and o['bounds'] == [twin[0]]:
            o['bounds'] = sorted(twin, key=lambda n: {'outline': 0, 'top': 1}.get(cls[n - 1], 2))[:1]
        return o
    finally:
        shutil.rmtree(d)


def handle(t):
    if t['c'] == 'stack':
        return stack(t)
    if t['c'] == 'name':
        return {'guess': [guess_layer_class(x) for x in t['texts']]}
    return files(t)


main(handle)
