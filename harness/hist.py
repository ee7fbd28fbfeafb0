"""File histories for C03, C04, C05, C06: base programs (GerberGen, MacroGen)
combined with operation histories (FilesMC), validated by FilesTrace."""
import re

import gmacro
import gtext
import xrun

ULP = {'inch': 2540000, 'metric': 100000}
FMTS = [(3, 4), (3, 5), (4, 4), (3, 3), (4, 5), (3, 6), (2, 4), (2, 5), (2, 6), (4, 3)]
NOPS = ['G04 comment*', '%INboard*%', '%LNtop*%', 'G04*', '%IPPOS*%', 'G04 X100Y100D01*', '%ASAXBY*%', '%IR0*%',
        '%MIA0B0*%', 'G04 second, comment*', '%TF.Part,Single*%']


class Rng(object):
    """stand-in for the NOP choice of gtext (no offset command in histories)"""
    def __init__(self, rng):
        self.rng = rng

    def random(self):
        return self.rng.random()

    def choice(self, _):
        return self.rng.choice(NOPS)


def base_gerber(cmds, rng):
    u = [c for c in cmds if c['c'] == 'MO'][0]['u']
    fmt = rng.choice(FMTS)
    zs = rng.choice('LLT')
    # largest coordinate: 30 mm, so that offsets and both units fit the format
    top = int(0.3 * 10 ** (2 if fmt[0] == 2 else 3) * 1e5 / (ULP[u] / 10. ** fmt[1]))
    if fmt[0] == 2 and u == 'inch':
        top = min(top, 30 * 10 ** 5 // (ULP[u] // 10 ** fmt[1]))
    mx = gtext.maxco(cmds)
    ks = [k for k in (1, 7, 10, 100, 123, 250, 1000, 1999, 5000, 12345) if k * mx <= top]
    # arcs must keep a radius of at least 40 units of the last digit
    arc = any(x['c'] == 'CO' and (x['i'] or x['j']) for x in cmds)
    fine = [k for k in ks if not arc or k * 5 >= 40]
    finer = [k for k in ks if not arc or u == 'inch' or k * 5 >= 1020]
    k = rng.choice(finer or fine or ks[-1:] or [1])
    m = rng.choice([10, 35, 100, 1000])
    c = gtext.scale(cmds, k, m)
    style = {'nl': '\n', 'short': rng.choice([0, 0, .5]), 'g54': rng.choice([0, 0, .5]),
             'units': rng.choice(['MO', 'MO', 'G7']), 'plus': 0}
    return {'text': gtext.text(c, fmt, zs, Rng(rng), style), 'fmt': fmt, 'zs': zs, 'arc': arc, 'coarse': not finer, 'useless': not fine,
            'step': k * ULP[u] // 10 ** fmt[1]}


def base_macro(prog, rng):
    par = {}
    for c in prog:
        if c['c'] == 'AM':
            # (a name may be defined again)
            par[len(par)] = used = set()
        elif c['c'] == 'AD':
            used.add(str(c['params']))
    t = gmacro.text(prog, rng)
    return {'text': t, 'fmt': (2, 4), 'zs': 'L', 'arc': False, 'coarse': False, 'step': ULP['inch' if '%MOIN' in t else 'metric'],
            'multi': any(len(v) > 1 for v in par.values())}


def base_drill(prog, rng, ext=False):
    """a drill program; None when it cannot be used in histories"""
    if prog['ext'] and not ext or not xrun.writable(prog) or not any(c['c'] == 'unit' for c in prog['cmds']):
        return None
    t, _ = xrun.concretise(prog, rng, [], limit=30000000)
    if not re.search('^(INCH|METRIC|M7)', t['text'], re.M):
        return None
    if t['fmt'][0] == 2 and t['units'] == 'inch' and False:
        return None
    return {'text': t['text'], 'fmt': t['fmt'], 'zs': t['zeros'], 'arc': False, 'coarse': False, 'step': 0 if t['k'] % 10 else t['k'] // 10,
            'ext': bool(t['ext']),
            'drill': {'how': 'settings', 'fmt': t['fmt'], 'zeros': t['zeros'], 'units': t['units'], 'ext': t['ext'], 'extkind': t['extkind']}}


VEC = [1, 2, 5, 10, 25, 100, 127, 1000, 2540, 5000]


def ops_for(hist, base, rng, noconv=False):
    """concrete operations; operations on poked files are dropped"""
    def vec():
        lim = 900 if base['fmt'][0] == 2 else 20000
        return [rng.choice([0, 1, -1, 1, -1]) * 254 * min(rng.choice(VEC), lim) for _ in 'xy']
    vecs = {2: vec(), -3: vec()}
    if base['step'] and rng.random() < .35 and not any(o['o'] == 'rw' for o in hist):
        # distances which occur in the file
        vecs = {k: [rng.choice([0, 1, -1, 1, -1, 2, 3]) * base['step'] for _ in 'xy'] for k in vecs}
    if rng.random() < .3:
        vecs[-3] = [-v for v in vecs[2]]
    res = []
    wild, offs, nofmt = set(), set(), set()
    idx, n, cnt = {1: 1}, 1, 1         # file numbers of the history -> actual
    for h in hist:
        o, f = h['o'], h['f']
        new = o in ('cinch', 'cmetric', 'coff', 'rw')
        n += new
        f = idx.get(f)
        if o == 'rw' and base.get('ext'):       # the file does not contain its tools
            continue
        if f is None or f in wild or f in nofmt:
            continue
        op = {'o': o, 'f': f, 'v': vecs[h['v']] if h['v'] else [], 'g': 0, 'fmt': []}
        if noconv and o in ('inch', 'metric'):
            continue
        if noconv and o in ('cinch', 'cmetric'):
            op['o'] = o = 'coff'
            op['v'] = vecs[2]
        if o == 'rw' and 'drill' not in base and rng.random() < .35:
            i = base['fmt'][0]
            d = base['fmt'][1] + rng.choice([0, 1, 2])
            if d <= 7:
                op['fmt'] = [{'i': i, 'd': d, 'zs': rng.choice(['leading', 'trailing']), 'n': 'absolute'}]
        if o == 'poke':
            op['g'] = rng.randrange(1000)
        res.append(op)
        if o == 'off' and any(op['v']):
            offs.add(f)
        if new:
            cnt += 1
            idx[n] = cnt
            if f in offs or (o == 'coff' and any(op['v'])):
                offs.add(cnt)
            if o == 'rw' and base['arc'] and f in offs:
                nofmt.add(cnt)        # arc centres of that file are outside the model
        if o == 'poke':
            wild.add(f)
    return res


def bases(ck, n_gerber, n_macro, n_drill):
    gs = []
    if n_gerber:
        g = ck.tlc('GerberGen', 'GerberGenF', workers=4, simulate=max(1, n_gerber // 4), depth=60)
        gs = sorted(g.lines('P'), key=str)
    ms = []
    if n_macro:
        m = ck.tlc('MacroGen', workers=4, simulate=max(1, n_macro // 4), depth=80)
        ms = sorted(m.lines('P'), key=str)
    x = ck.tlc('ExcellonGen', workers=4, simulate=max(1, n_drill // 4), depth=60) if n_drill else None
    return gs, ms, sorted(x.lines('P'), key=str) if x else []


def histories(ck):
    r = ck.design('FilesMC', 'FilesMCq' if ck.quick else 'FilesMC', workers=1)
    return r.lines('P')


def run(ck, want, per, n_gerber, n_macro, n_drill=0, ignore=(), dedicated=()):
    """want(hist): weight filter; per: number of traces"""
    rng = ck.rng
    hs = [h for h in histories(ck) if want(h)]
    gs, ms, xs = bases(ck, n_gerber, n_macro, n_drill)
    ck.notes['operation_histories'] = len(hs)
    ck.notes['base_programs'] = len(gs) + len(ms) + len(xs)
    rng.shuffle(hs)
    traces, tasks, inputs = [], [], []
    for k in range(per):
        if xs and (k % 4 == 2 or not gs):
            b = base_drill(xs[(k // 4 if gs else k) % len(xs)], rng, True)
            if b is None:
                continue
        elif ms and k % 4 == 3:
            b = base_macro(ms[(k // 4) % len(ms)], rng)
        else:
            b = base_gerber(gs[k % len(gs)], rng)
            if b.get('useless'):
                continue
        h = hs[k % len(hs)]
        # several apertures of one macro, converted and written: known finding,
        # kept for a tenth of these programs
        multi = b.get('multi') and any(o['o'] == 'rw' for o in h)
        known = bool(multi and rng.random() < .1)
        ops = ops_for(h, b, rng, noconv=bool(multi and not known) or (b['coarse'] and any(o['o'] == 'rw' for o in h)))
        tasks.append({'text': b['text'], 'ops': ops, 'bb': rng.random() < .8, 'file': rng.random() < .3,
                      'drill': b.get('drill')})
        traces.append({'ops': ops})
        inputs.append({'text': b['text'], 'ops': ops, 'multi': known, 'drill': b.get('drill')})
    for d in dedicated:
        tasks.append({'text': d['text'], 'ops': d['ops'], 'bb': True, 'file': False})
        traces.append({'ops': d['ops']})
        inputs.append(d)
    both, traces, obs = ck.answered(list(zip(tasks, inputs)), traces, ck.drive('files', tasks))
    tasks, inputs = [b[0] for b in both], [b[1] for b in both]
    for t, o in zip(traces, obs):
        t['obs'] = o['obs']
        for s in t['obs']:
            s.pop('tb', None)
    for k in (0, len(traces) // 2, len(traces) - 1) if traces else ():
        ck.sample({'text': tasks[k]['text'], 'ops': tasks[k]['ops']})
    v = ck.validate('FilesTrace', traces, batch=600)
    for x in v:
        if not x['ok'] and x['clause'] in ignore:
            x['ok'] = True
    ck.judge(traces, v, inputs=inputs)
