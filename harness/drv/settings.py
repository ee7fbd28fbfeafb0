"""Recognition of files and settings objects (spec/Settings.tla)."""
import os
import shutil
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from obs import *
import gerber
from gerber.cam import FileSettings
from gerber.exceptions import ParseError
from gerber.utils import detect_file_format
from gerber import excellon_settings

KEYS = ('notation', 'units', 'zero_suppression', 'zeros', 'angle_units', 'format')
BAD = {'notation': 'relative', 'units': 'mm', 'zero_suppression': 'both', 'zeros': 'none', 'angle_units': 'grad', 'format': (2, 4, 6)}


def val(v):
    return list(v) if isinstance(v, tuple) else v


def tup(v):
    return tuple(v) if isinstance(v, list) else v


def objects(t):
    s = {'a': FileSettings(), 'b': FileSettings()}
    steps = []
    for p in t['h']:
        err, rejected = '', False
        try:
            if p['op'] == 'new':
                s[p['o']] = FileSettings(**{k: tup(v) for k, v in p['kw']})
            elif p['op'] == 'bad':
                s[p['o']][p['k']] = BAD[p['k']]
            elif p['how'] == 'attr':
                setattr(s[p['o']], p['k'], tup(p['v']))
            else:
                s[p['o']][p['k']] = tup(p['v'])
        except ValueError as e:
            rejected = True
        except Exception as e:
            err = repr(e)
        x, y = s['a'], s['b']
        o = {'err': err, 'rejected': rejected, 'eq': bool(x == y), 'eq2': bool(y == x), 'ne': bool(x != y)}
        for n, z in (('a', x), ('b', y)):
            o[n] = {k: val(getattr(z, k)) for k in KEYS}
            o[n + 'i'] = {k: val(z[k]) for k in KEYS}
        steps.append(o)
    return {'steps': steps}


def view(s, angle=True):
    return {'units': s.units, 'notation': s.notation, 'zs': s.zero_suppression, 'zeros': s.zeros, 'format': val(s.format)}


def header(t):
    if t['m'] == 'param':
        s = excellon_settings.loads(t['text'])
        return {'type': ['param'], 'views': [view(s)]}
    names = {'GerberFile': 'rs274x', 'ExcellonFile': 'excellon', 'IPCNetlist': 'ipc_d_356'}
    kind = detect_file_format(t['text'].replace('\r', '\n') if t['file'] else t['text'])
    try:
        if t['file']:
            d = tempfile.mkdtemp()
            try:
                fn = os.path.join(d, 'data')
                with open(fn, 'w', newline='') as f:
                    f.write(t['text'])
                x = gerber.read(fn)
            finally:
                shutil.rmtree(d)
        else:
            x = gerber.loads(t['text'])
    except ParseError:
        return {'type': ['rejected', 'rejected' if kind == 'unknown' else kind], 'views': []}
    k = names.get(type(x).__name__, type(x).__name__)
    s = x.settings
    if k == 'ipc_d_356':
        views = [{'units': z.units, 'angle': z.angle_units, 'zs': '?', 'zeros': '?'} for z in (x, s)]
    else:
        views = [view(x), view(s), {'units': s['units'], 'notation': s['notation'], 'zs': s['zero_suppression'], 'zeros': s['zeros'], 'format': val(s['format'])}]
    return {'type': [k, kind], 'views': views}


def handle(t):
    return objects(t) if t['m'] == 'object' else header(t)


main(handle)
