"""Drill file checks C07, C08, C10, C16: programs from ExcellonMC/ExcellonGen,
operations chosen here, validated by ExcellonTrace."""
import xtext


def concretise(prog, rng, ops, limit=None):
    """limit: largest coordinate in nanometres"""
    cmds, ext = [dict(c) for c in prog['cmds']], [dict(e) for e in prog['ext']]
    us = [c['u'] for c in cmds if c['c'] == 'unit']
    units = us[0] if us else 'inch'
    mx = xtext.maxco(cmds) + sum(max(abs(v) for v in o['v']) for o in ops if o['o'] == 'off')
    while True:
        fmt = rng.choice(xtext.FMTS[units])
        g1 = xtext.NM[units] // 10 ** fmt[1]
        top = min(10 ** sum(fmt) - 1, (limit or 1900000000) // g1) // mx
        if top >= 1:
            break
    k = min(rng.choice([1, 7, 10, 50, 100, 123, 250, 1000, 1999]), top)
    zeros = rng.choice(['leading', 'trailing'])
    lone = not any(c['c'] in ('m48', 'hdr') for c in cmds)
    dec = rng.random() < .15
    # how the format is known to the reader
    how = rng.choice(['settings', 'settings', 'loads', 'read', 'generic', 'gread'])
    if ext and how not in ('settings', 'loads'):
        how = 'settings'
    if how != 'settings' or rng.random() < .3:
        unit, ff = 'word', True
        if not dec and rng.random() < .4 and fmt in ((3, 3), (2, 4), (4, 2)):
            unit, ff = 'fmtword', rng.random() < .3
    else:
        unit, ff = rng.choice(['word', 'fmtword', 'bare', 'm7', 'none']), False
        if unit == 'bare':
            zeros = 'trailing'
        if unit == 'fmtword' and fmt not in ((3, 3), (2, 4), (4, 2)):
            unit = 'word'
        if unit == 'none' and units != 'inch':
            unit = 'm7'
    if lone:
        how = 'settings'
    m48 = any(c['c'] == 'm48' for c in cmds)
    if not m48:                       # only M48 lets the generic loader recognise the kind of file
        how = {'generic': 'loads', 'gread': 'read'}.get(how, how)
    # diameters: abstract 1..40 -> nm, exact in the file's units
    # (up to 2 inches or 20 mm, some finer than the number format)
    if units == 'inch':
        q = rng.choice([25400, 25400 * 2, 2540 * 25, 2540 * rng.randint(1, 500), 127 * rng.randint(20, 8000)])
    else:
        q = rng.choice([10000, 50000, 100000, 1000 * rng.randint(1, 500), 10 * rng.randint(100, 50000)])
    for c in cmds:
        if c['c'] in ('tdef', 'hole') and c['d'] < 1000:
            c['d'] *= q
    for e in ext:
        if e['d'] < 1000:
            e['d'] *= q
    for o in ops:
        if o['o'] == 'upd':
            o['d'] *= q
    # the test-driven small programs use fixed metric sizes
    st = {'dec': dec, 'full': rng.random() < .3, 'plus': rng.random() < .2, 'ff': ff, 'unit': unit, 'header': lone}
    p = xtext.Printer(rng, units, fmt, zeros, k, st)
    kind = rng.choice(['allegro', 'pads'])
    nl = '\n'
    text = p.text(cmds, nl, rng.random() < .8)
    grid = {u: xtext.NM[u] / float(g1 * k) for u in ('inch', 'metric')}     # grid units per unit
    det = ((ff and unit == 'word') or unit == 'fmtword') and how != 'settings'
    for o in ops:
        if o['o'] in ('rw', 'ctx'):
            o['how'] = 'settings'
            if (det or (o['o'] == 'ctx')) and not ext:
                o['how'] = rng.choice(['settings', 'loads', 'read'] + (['gread'] if m48 else []))
    task = {'text': text, 'ops': ops, 'grid': grid, 'units': units, 'fmt': fmt, 'zeros': zeros, 'how': how,
            'ext': xtext.toollist(ext, units, kind, rng) if ext else '', 'extkind': kind, 'twice': rng.random() < .5, 'k': g1 * k}
    # one last digit of the printed diameter; path lengths are reported with six digits
    tol = xtext.NM[units] // 10 ** fmt[1] + 1
    rt = int(grid['inch'] * 100 * 5e-7) + 1
    trace = {'cmds': cmds, 'ext': ext, 'g': g1 * k, 'tol': tol, 'rt': rt, 'ops': ops,
             'rtol': {u: xtext.NM[u] // 10 ** fmt[1] + 1 for u in ('inch', 'metric')}}
    return task, trace


def programs(ck, n_edges, n_walks):
    r = ck.design('ExcellonMC', 'ExcellonMCq' if ck.quick else 'ExcellonMC', workers=1, timeout=850)
    edges = [{'cmds': p, 'ext': [{'n': 3, 'd': 900000, 'p': 'nonplated', 'h': 0}]} for p in r.lines('P')]
    edges = ck.rng.sample(edges, min(n_edges, len(edges)))
    w = ck.tlc('ExcellonGen', workers=4, simulate=max(1, n_walks // 4), depth=60)
    walks = sorted(w.lines('P'), key=str)
    ck.notes['edge_programs'] = len(edges)
    ck.notes['walk_programs'] = len(walks)
    return edges, walks


def writable(p):
    """a header that is opened is closed as well, before the first hole"""
    ks = [c['c'] for c in p['cmds']]
    opened = [k for k, c in enumerate(ks) if c in ('m48', 'hdr', 'hole')]
    closed = [k for k, c in enumerate(ks) if c in ('pct', 'm95') and (not opened or k > opened[-1])]
    return not opened or bool(closed) and not any(c in ('xy', 'slot', 'g00', 'g01', 'rep') for c in ks[:closed[0]])


def run(ck, progs, opsof):
    rng = ck.rng
    tasks, traces = [], []
    for p in progs:
        ops = opsof(p, rng)
        if any(o['o'] == 'rw' for o in ops) and not writable(p):
            ops = [o for o in ops if o['o'] != 'rw']
        tk, tr = concretise(p, rng, ops)
        tasks.append(tk)
        traces.append(tr)
    tasks, traces, obs = ck.answered(tasks, traces, ck.drive('excellon', tasks))
    for t, o in zip(traces, obs):
        t['obs'] = o['obs']
        for s in t['obs']:
            s.pop('tb', None)
    for k in (0, len(traces) // 2, len(traces) - 1) if traces else ():
        ck.sample({'text': tasks[k]['text'], 'ops': tasks[k]['ops'], 'observed': obs[k]['obs'][-1]})
    v = ck.validate('ExcellonTrace', traces, batch=1500)
    ck.judge(traces, v, inputs=tasks)
