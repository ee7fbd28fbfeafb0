"""C09: Gerber generated from graphic objects.  spec/Writer.tla, WriterMC (design),
WriterTrace (validation); programs from WriterMC's transitions, GerberGen and
MacroGen walks."""
import copy
import re

import gmacro
import gscan
import gtext

FMTS = [(2, 4), (3, 4), (3, 3), (2, 5), (4, 4), (2, 6), (3, 5), (4, 5)]


def gprog(cmds, rng, fmt, plan, units=None):
    """coordinates stay below 20000 units of the generated format (squares are compared)"""
    mx = gtext.maxco(cmds)
    top = min(10 ** sum(fmt) - 1, 20000 // plan['mult'])
    k = max(1, min(rng.choice([1, 7, 10, 100, 123, 250, 1000, 1999]), top // mx))
    m = rng.choice([10, 35, 100, 1000])
    c = gtext.scale(cmds, k, m)
    if units:
        c = [dict(x, u=units) if x['c'] == 'MO' else x for x in c]
    return gtext.text(c, fmt, rng.choice('LLT'), rng)


def units_of(text):
    return 'metric' if re.search('MOMM', text) else 'inch'


def plan(rng, fmt, units, macro=False):
    """how the objects are transformed and rendered; fmt: the format of the sources"""
    t = {'how': rng.choice(['loop', 'loop', 'file']), 'flags': rng.choice([0, 0, 0, 1, 2, 3]), 'mult': 1}
    d = fmt[1]
    if units == 'inch' and fmt[0] <= 3 and d <= 5 and rng.random() < .15:
        t['conv'] = True
        d += 1
        t['mult'] = 254
        t['fmt'] = [fmt[0] + 2, d, rng.choice(['leading', 'trailing'])]
    elif rng.random() < .4:
        t['mult'] = rng.choice([1, 10] if d < 6 else [1])
        d += t['mult'] == 10
        t['fmt'] = [fmt[0], d, rng.choice(['leading', 'trailing'])]
    t['strip'] = t['how'] == 'loop' and rng.random() < .25
    if t['how'] == 'loop':
        if rng.random() < .5:
            t['perm'] = rng.choice([7, 1009, 3571, 10006])
        if rng.random() < .3:
            t['copies'] = [[rng.choice([-500, 0, 300, 1000]), rng.choice([0, 100, 700])] for _ in range(rng.choice([1, 1, 2]))]
    t['cs'], t['ss'], t['grid'] = 10 ** d, 10 ** 6, d
    return t


def with_units(text, u):
    return re.sub('MO(IN|MM)', 'MO' + ('MM' if u == 'metric' else 'IN'), text)


def tok(a, b=1):
    return {'t': 'n', 'a': a, 'b': b}


def plus(e, v):
    return [{'t': '(', 'a': 0, 'b': 0}] + e + [{'t': ')', 'a': 0, 'b': 0}, {'t': '+', 'a': 0, 'b': 0}, v]


def variant(prog, rng):
    """the same macros with one detail changed, which often leaves the extent as it was"""
    p = copy.deepcopy(prog)
    for am in [c for c in p if c['c'] == 'AM']:
        prims = [b for b in am['blocks'] if b['b'] == 'prim']
        b = rng.choice(prims)
        r = rng.random()
        if rng.random() < .3:
            # one part more or less
            k = max(n for n, x in enumerate(am['blocks']) if x['b'] == 'prim')
            if len(prims) > 1 and rng.random() < .6:
                del am['blocks'][k]
            else:
                am['blocks'].append(copy.deepcopy(b))
            continue
        if b['code'] == 7:
            b['m'][-1] = plus(b['m'][-1], tok(rng.choice([30, 45])))
        elif r < .35:
            z = b['m'][0] == [tok(0)]
            b['m'][0] = [tok(1 if z else 0)]
        elif r < .75 and not (b['code'] == 1 and len(b['m']) < 5):
            b['m'][-1] = plus(b['m'][-1], tok(rng.choice([12, 30, 90, 180])))
        elif r < .85 and b['code'] == 5:
            b['m'][1] = [tok(rng.choice([3, 5, 7]))]
        elif b['code'] == 1:
            b['m'][2] = plus(b['m'][2], tok(1, 20))
        elif b['code'] in (21, 22):
            b['m'][1], b['m'][2] = b['m'][2], b['m'][1]
    return p


def vary(ap, rng):
    """an aperture that differs in one detail, or is written another way"""
    a = copy.deepcopy(ap)
    r = rng.random()
    if a['sh'] == 'P' and r < .6:
        a['rot'] += rng.choice([360 // a['n'], 360 // a['n'], 1, 90, 180 // a['n'], -2 * a['rot']])
        if rng.random() < .1:
            a['n'] += 1
    elif len(a['s']) == 2 and r < .4:
        a['s'].reverse()
    elif len(a['h']) == 2 and r < .7:
        a['h'].reverse()
    elif a['h'] and r < .85:
        a['h'] = [] if rng.random() < .3 else [a['h'][0]] if len(a['h']) == 2 else [a['h'][0], a['h'][0]]
    elif r < .95:
        k = rng.randrange(len(a['s']))
        a['s'][k] += 1
    return a


def near(cmds, rng):
    """some later apertures become variants of earlier ones"""
    seen, res = [], []
    for c in cmds:
        if c['c'] == 'AD':
            if seen and rng.random() < .7:
                c = dict(c, ap=vary(rng.choice(seen), rng))
            seen.append(c['ap'])
        res.append(c)
    return res


def build(ck):
    rng = ck.rng
    r = ck.design('WriterMC', workers=1)
    edges = r.lines('P')
    edges = rng.sample(edges, min(len(edges), 700 if ck.quick else 20000))
    g = ck.tlc('GerberGen', workers=4, simulate=450 if ck.quick else 3000, depth=80)
    walks = sorted(g.lines('P'), key=str)
    m = ck.tlc('MacroGen', workers=4, simulate=60 if ck.quick else 800, depth=80)
    macros = sorted(m.lines('P'), key=str)
    ck.notes.update(writer_transitions=len(edges), walks=len(walks), macro_programs=len(macros))
    tasks = []

    def add(main, others, macro=False):
        fmt = (2, 4) if macro else rng.choice(FMTS)
        u = rng.choice(['inch', 'metric'])
        t = plan(rng, fmt, u)
        t['texts'] = [with_units(gmacro.text(p, rng), u) if mac else gprog(p, rng, fmt, t, u)
                      for mac, p in [(macro, main)] + others]
        tasks.append(t)
    for e in edges:
        add(e, [])
    for w in walks:
        if rng.random() < .5:
            w = near(w, rng)
        add(w, [(False, near(w, rng) if rng.random() < .3 else rng.choice(walks))] if rng.random() < .35 else [])
    for p in macros:
        if rng.random() < .5:
            add(p, [(True, variant(p, rng))], True)
            continue
        add(p, [(True, rng.choice(macros))] * (rng.random() < .4) + [(False, rng.choice(walks))] * (rng.random() < .3), True)
    return tasks


def run(ck):
    tasks = build(ck)
    obs = ck.drive('writer', tasks)
    traces, inputs = [], []
    for t, o in zip(tasks, obs):
        if o['err'] and o.get('stage', 'load') == 'load':
            ck.fail('load-raised', {'clause': 'load-raised', 'detail': {'error': o['err'], 'tb': o.get('tb')}, 'input': t})
            continue
        tr = {'err': o['err'], 'stage': o.get('stage', ''), 'gen': [], 'objs': o.get('objs', []),
              'obs': o.get('obs', []), 'same': o.get('same', True), 'units': o.get('units', '')}
        if not o['err']:
            try:
                tr['gen'] = gscan.scan(o['text'], t['grid'], t['ss'], {int(k): v for k, v in o['shapes'].items()})
            except (gscan.ScanError, KeyError, ValueError) as e:
                tr['err'], tr['stage'] = '%s: %s' % (type(e).__name__, e), 'scan'
        traces.append(tr)
        inputs.append(dict(t, text=o.get('text'), tb=o.get('tb')))
    for k in (0, len(tasks) // 2, len(tasks) - 1):
        ck.sample({'texts': tasks[k]['texts'], 'generated': obs[k].get('text')})
    v = ck.validate('WriterTrace', traces, batch=1500)
    ck.judge(traces, v, inputs=inputs)
