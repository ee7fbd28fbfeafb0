import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import copy
import re
import shutil
import tempfile
from obs import *
import gerber as lib
from gerber import excellon, excellon_tool
from gerber.cam import FileSettings
from gerber.render.excellon_backend import ExcellonContext

NM = {'inch': 25400000.0, 'metric': 1000000.0}


def num(v, k):
    try:
        f = float(v) * k
    except (TypeError, ValueError):
        return OFF
    if f != f or abs(f) > 1.9e9:
        return BIG
    return int(round(f))


def hit(h, grid, nm):
    if isinstance(h, excellon.DrillSlot):
        return {'k': {1: 'rout', 2: 'g85'}.get(h.slot_type, '?'), 't': h.tool.number, 'd': num(h.tool.diameter, nm),
                'pts': [qp(h.start, grid), qp(h.end, grid)]}
    return {'k': 'hole', 't': h.tool.number, 'd': num(h.tool.diameter, nm), 'pts': [qp(h.position, grid)]}


def prim(p, grid, nm):
    if type(p).__name__ == 'Slot':
        return ['Slot', num(p.diameter, nm), qp(p.start, grid), qp(p.end, grid), p.units]
    return [type(p).__name__, num(p.diameter, nm), qp(p.position, grid), p.units]


def project(f, t):
    u = str(f.units)
    grid = t['grid'][u]
    nm = NM[u]
    hs = [hit(h, grid, nm) for h in f.hits]
    tools = [{'n': x.number, 'd': num(x.diameter, nm), 'p': x.plated or '', 'h': x.hit_count}
             for k, x in f.tools.items() if k == x.number]
    ps = [prim(p, grid, nm) for p in f.primitives]
    exp = [['Drill' if h['k'] == 'hole' else 'Slot', h['d']] + h['pts'] + [u] for h in hs]
    bb = []
    if f.hits:
        (a, b), (c, d) = f.bounding_box
        bb = [num(v, nm) for v in (a, b, c, d)]
    return {'u': u, 'tools': tools, 'hits': hs, 'prims': ps == exp, 'bb': bb}


def params(tool):
    return [tool.feed_rate, tool.retract_rate, tool.rpm, tool.max_hit_count, tool.depth_offset]


def kept(a, b):
    """the tools have the same parameters, as far as those fit the number format"""
    st = b.settings
    res = 10. ** -st.format[1]
    for n, x in a.tools.items():
        y = b.tools.get(n)
        for k, (v, w) in enumerate(zip(params(x), params(y) if y else [])):
            s = 1000. if k == 2 else 1.
            if (v is None) != (w is None) or v is not None and abs(v) < s * (10 ** st.format[0] - 1) and abs(v - w) > s * res:
                return False
    return True


def ext(t):
    if not t['ext']:
        return None
    st = FileSettings(units=t['units'], format=tuple(t['fmt']), zeros=t['zeros'])
    return (excellon_tool.loads if t['extkind'] == 'allegro' else excellon_tool.loads_rep)(t['ext'], st)


def load(text, t, d, settings=None, how=None, tools=None):
    how = how or t['how']
    if how == 'settings':
        st = settings or FileSettings(units='inch', format=tuple(t['fmt']), zeros=t['zeros'])
        return excellon.loads(text, settings=st, tools=tools)
    if how == 'loads':
        return excellon.loads(text, tools=tools)
    if how == 'generic':
        return lib.loads(text, 'x.drl')
    fn = os.path.join(d, 'f.drl')
    with open(fn, 'w') as h:
        h.write(text)
    return excellon.read(fn) if how == 'read' else lib.read(fn)


def handle(t):
    d = tempfile.mkdtemp()
    try:
        return run(t, d)
    finally:
        shutil.rmtree(d)


def run(t, d):
    res = []
    f = [None]
    tl = [ext(t)]

    def step(op):
        extl = tl[0]
        o = op['o']
        cur = f[0]
        out = {'err': ''}
        if o == 'read':
            if t.get('twice') and extl:          # the same tool list used before
                load(t['text'], t, d, tools=extl)
            f[0] = load(t['text'], t, d, tools=extl)
            out['file'] = project(f[0], t)
        elif o == 'off':
            g = t['grid'][cur.units]
            shift(cur, op['v'][0] / g, op['v'][1] / g)
            out['file'] = project(cur, t)
        elif o == 'conv':
            cur.to_inch() if op['u'] == 'inch' else cur.to_metric()
            out['file'] = project(cur, t)
        elif o == 'perm':            # as examples/excellon_optimize.py does
            hs = [excellon.DrillSlot(cur.tools[h.tool.number], h.start, h.end, h.slot_type) if isinstance(h, excellon.DrillSlot)
                  else excellon.DrillHit(cur.tools[h.tool.number], h.position) for h in cur.hits]
            cur.hits = hs[::-1] if op['how'] == 'reverse' else hs[1:] + hs[:1] if op['how'] == 'rotate' else hs
            out['file'] = project(cur, t)
        elif o == 'upd':
            before = dict((n, params(x)) for n, x in cur.tools.items())
            kw = dict(op['kw'])
            if op['d']:
                kw['diameter'] = op['d'] / NM[cur.units]
            cur.update_tool(op['n'], **kw)
            names = ['feed_rate', 'retract_rate', 'rpm', 'max_hit_count', 'depth_offset']
            out['others'] = all(params(x) == ([kw.get(a, b) for a, b in zip(names, before[n])] if n == op['n'] else before[n])
                                for n, x in cur.tools.items())
            out['file'] = project(cur, t)
        elif o == 'rw':
            txt = []
            for k in (1, 2):
                fn = os.path.join(d, 'w%d.drl' % k)
                cur.write(fn)
                with open(fn) as h:
                    txt.append(h.read())
            out['same'] = txt[0] == txt[1]
            if cur.filename and os.path.dirname(cur.filename) == d:
                cur.write()                  # to the file it was read from
                with open(cur.filename) as h:
                    out['same'] = out['same'] and h.read() == txt[0]
            out['src'] = project(cur, t)
            out['text'] = txt[0]
            f[0] = load(txt[0], t, d, settings=cur.settings, how=op['how'], tools=extl)
            out['params'] = kept(cur, f[0])
            out['file'] = project(f[0], t)
        elif o == 'ctx':
            st = copy.copy(cur.settings)
            st.notation = 'absolute'      # the other notation is declared not to be supported
            ctx = ExcellonContext(st)
            cur.render(ctx)
            tl[0] = None          # the generated file defines its tools itself
            txt = '\n'.join(s.to_excellon(ctx.settings) for s in ctx.statements) + '\n'
            out['src'] = project(cur, t)
            out['text'] = txt
            f[0] = load(txt, t, d, settings=st, how=op['how'])
            out['file'] = project(f[0], t)
        elif o == 'rep':
            g = t['grid'][cur.units] * 100
            r = cur.report()
            unit = 'in.' if cur.units == 'inch' else 'mm'
            rows = []
            pl, hc = cur.path_length(), cur.hit_count()
            for m in re.finditer(r'^  T(\d+)\s+([-\d.]+)\s+(\d+)\s+([-\d.]+)(in\.|mm)$', r, re.M):
                n = int(m.group(1))
                rows.append({'n': n, 'd': num(m.group(2), NM[cur.units]), 'h': int(m.group(3)),
                             'len': num(m.group(4), g) if m.group(5) == unit else OFF,
                             'plen': num(pl.get(n), g) if pl.get(n) == cur.path_length(n) else OFF,
                             'hc': hc.get(n) if hc.get(n) == cur.hit_count(n) else OFF})
            out['rows'] = rows
            out['inc'] = bool(re.search(r'^  Data Mode +Incremental$', r, re.M))
            out['head'] = bool(re.search(r'^  Data Mode +(Absolute|Incremental)$', r, re.M) and
                               re.search(r'^  Units +%s$' % ('Inches' if unit == 'in.' else 'Millimeters'), r, re.M))
            fn = os.path.join(d, 'rep.txt')
            if cur.report(fn) != r or open(fn).read() != r:
                out['head'] = False
        res.append(out)
    for op in [{'o': 'read'}] + t['ops']:
        try:
            step(op)
        except Exception as e:
            res.append({'err': '%s: %s' % (type(e).__name__, e), 'tb': traceback.format_exc().splitlines()[-4:]})
            break
    return {'obs': res}


main(handle)
