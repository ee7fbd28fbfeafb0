import os, sys, copy
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import tempfile
import shutil
from phys import *
import gerber as lib
from gerber import excellon as xlib, excellon_tool, operations, rs274x
from gerber.cam import FileSettings


def pokes(f, g):
    """the g-th mutation that applies to this file"""
    out = []
    for p in f.primitives:
        n = type(p).__name__
        if n in ('Line', 'Arc'):
            out.append(lambda p=p: setattr(p, 'start', (p.start[0] + 1, p.start[1])))
            if hasattr(p.aperture, 'diameter'):
                out.append(lambda p=p: setattr(p.aperture, 'diameter', p.aperture.diameter * 2))
            elif hasattr(p.aperture, 'width'):
                out.append(lambda p=p: setattr(p.aperture, 'width', p.aperture.width * 2))
        elif n == 'Region':
            out.append(lambda p=p: p.primitives[0].offset(1, 2))
            out.append(lambda p=p: p.primitives.append(p.primitives[0]))
        elif n == 'AMGroup':
            out.append(lambda p=p: p.primitives[0].offset(1, 2))
            out.append(lambda p=p: setattr(p, 'position', (p.position[0] + 1, 0)))
        else:
            out.append(lambda p=p: setattr(p, 'position', (p.position[0] + 1, p.position[1])))
            out.append(lambda p=p: p.offset(1, 1))
            out.append(lambda p=p: p.to_metric())
            out.append(lambda p=p: p.to_inch())
        out.append(lambda p=p: setattr(p, 'level_polarity', 'clear' if p.level_polarity == 'dark' else 'dark'))
    for s in f.statements:
        n = type(s).__name__
        if n == 'CoordStmt':
            out.append(lambda s=s: setattr(s, 'x', (s.x or 0) + 1))
        elif n == 'ADParamStmt':
            out.append(lambda s=s: setattr(s, 'modifiers', [tuple(v * 2 for v in s.modifiers[0])]))
            out.append(lambda s=s: s.to_metric())
            out.append(lambda s=s: s.to_inch())
        elif n == 'MOParamStmt':
            out.append(lambda s=s: setattr(s, 'mode', 'inch' if s.mode == 'metric' else 'metric'))
    for a in f.apertures:
        out.append(lambda a=a: a.to_metric())
        out.append(lambda a=a: a.to_inch())
        if hasattr(a, 'diameter'):
            out.append(lambda a=a: setattr(a, 'diameter', 7))
    out.append(lambda: f.primitives.pop())
    out.append(lambda: f.statements.pop())
    out.append(lambda: f.apertures.pop())
    out.append(lambda: setattr(f, 'format', (5, 1)))
    out.append(lambda: setattr(f, 'zero_suppression', 'trailing' if f.zero_suppression == 'leading' else 'leading'))
    return out[g % len(out)]


def xpokes(f, g):
    """the g-th mutation that applies to this drill file"""
    out = []
    for h in f.hits:
        if hasattr(h, 'slot_type'):
            out.append(lambda h=h: setattr(h, 'start', (h.start[0] + 1, h.start[1])))
        else:
            out.append(lambda h=h: setattr(h, 'position', (h.position[0] + 1, h.position[1])))
        out.append(lambda h=h: h.offset(1, 2))
        out.append(lambda h=h: h.to_inch())
        out.append(lambda h=h: h.to_metric())
    for n, t in sorted(f.tools.items()):
        out.append(lambda t=t: setattr(t, 'diameter', t.diameter * 2))
        out.append(lambda n=n: f.update_tool(n, diameter=3, rpm=7))
        out.append(lambda t=t: t.to_inch())
        out.append(lambda t=t: t.to_metric())
        out.append(lambda n=n: f.tools.pop(n))
    out.append(lambda: f.hits.pop())
    out.append(lambda: f.statements.pop())
    out.append(lambda: setattr(f, 'format', (5, 1)))
    out.append(lambda: setattr(f, 'zero_suppression', 'trailing' if f.zero_suppression == 'leading' else 'leading'))
    return out[g % len(out)]


def handle(t):
    d = tempfile.mkdtemp()
    try:
        return run(t, d)
    finally:
        shutil.rmtree(d)


def run(t, d):
    files, bbs, res, last = [], [], [], []
    extra = {}
    x = t.get('drill')
    pk = xpokes if x else pokes
    exts = None
    if x and x['ext']:
        exts = (excellon_tool.loads if x['extkind'] == 'allegro' else excellon_tool.loads_rep)(
            x['ext'], FileSettings(units=x['units'], format=tuple(x['fmt']), zeros=x['zeros']))

    def xload(fn, st):
        with open(fn) as h:
            text = h.read()
        return xlib.loads(text, settings=st, tools=exts)

    def observe():
        cur = []
        for k, f in enumerate(files):
            o = excellon(f, bbs[k]) if x else gerber(f, bbs[k])
            if k < len(last) and last[k][1] == o:
                cur.append({'ref': last[k][0]})
            else:
                if k < len(last):
                    last[k] = (len(res) + 1, o)
                else:
                    last.append((len(res) + 1, o))
                cur.append(o)
        r = {'err': '', 'files': cur, 'same': True}
        r.update(extra)
        res.append(r)

    def step(op):
        o = op['o']
        f = files[op['f'] - 1] if files else None
        v = [c / K[f.units] for c in op['v']] if f and op['v'] else None
        extra.clear()
        if o == 'read':
            fn = os.path.join(d, 'base.gbr')
            with open(fn, 'w') as h:
                h.write(t['text'])
            if x:
                files.append(xload(fn, FileSettings(units='inch', format=tuple(x['fmt']), zeros=x['zeros'])))
            else:
                files.append(lib.read(fn) if t.get('file') else rs274x.loads(t['text']))
            bbs.append(t.get('bb', True))
        elif o == 'inch':
            f.to_inch()
        elif o == 'metric':
            f.to_metric()
        elif o == 'off':
            shift(f, v[0], v[1])
        elif o == 'cinch':
            files.append(operations.to_inch(f))
            bbs.append(bbs[op['f'] - 1])
        elif o == 'cmetric':
            files.append(operations.to_metric(f))
            bbs.append(bbs[op['f'] - 1])
        elif o == 'coff':
            files.append(operations.offset(f, v[0], v[1]))
            bbs.append(bbs[op['f'] - 1])
        elif o == 'rw':
            st = None
            if op['fmt']:
                m = op['fmt'][0]
                st = FileSettings(m['n'], f.units, m['zs'], (m['i'], m['d']))
            txt = []
            for k in (1, 2):
                fn = os.path.join(d, 'w%d-%d.gbr' % (len(res), k))
                f.write(fn, st) if st else f.write(fn)
                with open(fn) as h:
                    txt.append(h.read())
            extra['same'] = txt[0] == txt[1]
            files.append(xload(fn, f.settings) if x else lib.read(fn) if t.get('file') else rs274x.read(fn))
            bbs.append(False)
        elif o == 'poke':
            bbs[op['f'] - 1] = False
            for k in range(200):
                try:
                    pk(f, op['g'] + k)()
                    break
                except (AttributeError, KeyError, IndexError):      # read-only attribute, tool in use
                    pass
        observe()
        if op.get('keep'):
            res[-1]['text'] = txt[0]
    for op in [{'o': 'read', 'f': 1, 'v': []}] + t['ops']:
        try:
            step(op)
        except Exception as e:
            res.append({'err': '%s: %s' % (type(e).__name__, e), 'files': [], 'same': True,
                        'tb': traceback.format_exc().splitlines()[-4:]})
            break
    return {'obs': res}


main(handle)
