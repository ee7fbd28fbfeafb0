"""C17: text layout.  spec/Layout.tla, LayoutMC and IncludeMC (design), LayoutTrace
(layout reader driving the plotter); programs from GerberGen, MacroGen, ExcellonGen."""
import re
import gtext
import gmacro
import layout
import xrun
import xtext

FMTS = [(2, 4), (2, 3), (3, 4), (3, 3), (2, 5), (4, 4), (2, 6), (3, 5)]
NLS = ['\n', '\r\n', '\r']


def style(rng):
    return {'short': rng.choice([0, .5, 1]), 'g54': rng.choice([0, .5]), 'units': rng.choice(['MO', 'MO', 'G7']),
            'plus': rng.choice([0, 0, .5]), 'pad': rng.choice([0, .5, 1])}


def prepare(p, rng):
    """scaled commands with the format statement in front and text without a meaning in between"""
    fmt = rng.choice(FMTS)
    zs = rng.choice('LLT')
    top = min(10 ** sum(fmt) - 1, 20000) // gtext.maxco(p)
    k = max(1, min(rng.choice([1, 7, 10, 100, 123, 250]), top))
    cs = gtext.scale(p, k, rng.choice([1, 10, 35, 100]))
    cmds = [{'c': 'FS', 'z': 'leading' if zs == 'L' else 'trailing', 'f': list(fmt)}]
    noisy = rng.choice([0, .1, .3])
    for c in cs:
        while rng.random() < noisy:
            cmds.append(layout.nop(rng))
        cmds.append(layout.nop(rng) if c['c'] == 'NOP' else c)
    cmds.append({'c': 'NOP', 'kind': 'w', 'text': rng.choice(['M02', 'M02', 'M00', 'M2'])})
    return cmds, fmt, zs


def finish(cmds, parts, fmt, zs, win, rng):
    """parts: one list of items per file; items k (a command) or -f (an include of file f)"""
    st = style(rng)
    names = ['main.gbr'] + [rng.choice(['inc%d.gbr', 'sub/part%d.txt', 'in-c_%d', 'sub/deep/p.%d']) % k for k in range(2, len(parts) + 1)]
    nl = rng.choice(NLS)
    files, syms = [], []
    bodies = [layout.body(c, fmt, zs, rng, st) for c in cmds]
    for name, items in zip(names, parts):
        it = [(k,) + (bodies[k - 1] if k > 0 else ('p', 'IF' + names[-k - 1])) for k in items]
        txt, sy = layout.lay(it, win, rng, nl if rng.random() < .8 else rng.choice(NLS))
        files.append([name, txt])
        syms.append(sy)
    whole = re.search(r'^\s*%FS', files[0][1], re.M)
    how = rng.choice(['loads', 'read', 'gread', 'generic'] if whole else ['loads', 'read'])
    task = {'files': files, 'how': how, 'cs': 10 ** fmt[1], 'ss': 10 ** 5}
    trace = {'files': syms, 'cmds': [{x: y for x, y in c.items() if x not in ('kind', 'text')} for c in cmds]}
    return task, trace


def cut(n, rng):
    """the program 1..n cut into files that include each other, at most ten deep"""
    parts = [None]

    def build(a, b, depth):
        items, k = [], a
        while k < b:
            if depth < 10 and rng.random() < (.25 if depth < 3 else .5) and len(parts) < 24:
                e = rng.randint(k, min(b, k + 20))
                parts.append(None)
                f = len(parts)
                parts[f - 1] = build(k, e, depth + 1)
                items.append(-f)
                k = e
            else:
                items.append(k)
                k += 1
        return items
    parts[0] = [1] + build(2, n + 1, 0)
    return parts


def chain(n, depth, rng):
    """every file includes the next one"""
    cuts = sorted(rng.randint(2, n) for _ in range(2 * depth))
    lo, hi = cuts[:depth], cuts[depth:][::-1]
    parts, a, b = [], 1, n + 1
    for k in range(depth):
        parts.append(list(range(a, lo[k])) + [-(k + 2)] + list(range(hi[k], b)))
        a, b = lo[k], hi[k]
    parts.append(list(range(a, b)))
    return parts


def repeated(n, cmds, rng):
    """the same file read again and again, one after the other"""
    pad = [{'c': 'CO', 'f': 'G01', 'x': [5], 'y': [7], 'i': [], 'j': [], 'o': 'D02'},
           {'c': 'CO', 'f': '', 'x': [9], 'y': [], 'i': [], 'j': [], 'o': 'D01'},
           {'c': 'SEL', 'd': 10},
           {'c': 'CO', 'f': '', 'x': [], 'y': [9], 'i': [], 'j': [], 'o': 'D03'}]
    cmds += pad
    return [list(range(1, n)) + [-2] * rng.randint(2, 25) + [n], [n + k for k in range(1, len(pad) + 1)]]


def gerber(ck, win, walks):
    rng = ck.rng
    tasks, traces = [], []
    for q, p in enumerate(walks):
        cmds, fmt, zs = prepare(p, rng)
        n = len(cmds)
        if q % 10 < 6:
            parts = [list(range(1, n + 1))]
        elif q % 10 < 8:
            parts = cut(n, rng)
        elif q % 20 < 18:
            parts = chain(n, rng.choice([1, 2, 5, 9, 10, 10, 11, 11, 12, 15]), rng)
        elif q % 20 == 18:
            parts = repeated(n, cmds, rng)
        else:                       # a loop
            parts = [[1, 2, rng.choice([-1, -2])], [2, rng.choice([-1, -2])]]
        tk, tr = finish(cmds, parts, fmt, zs, win, rng)
        tasks.append(tk)
        traces.append(tr)
    obs = ck.drive('layout', tasks)
    for t, o in zip(traces, obs):
        t['obs'] = o
        o.pop('tb', None)
    for k in (0, 7, 9):
        ck.sample({'files': tasks[k]['files'], 'observed': {x: y for x, y in obs[k].items() if x != 'img'}})
    v = ck.validate('LayoutTrace', traces, batch=1500)
    ck.judge(traces, v, inputs=tasks)


def relay(text, win, rng):
    """another layout of a plain macro file"""
    toks = re.findall(r'%[^%]*%|[^*%]+\*', text)
    items = []
    for t in toks:
        t = t.strip()
        if t[0] == '%':
            items.append((1, 'p', t[1:-1].strip()[:-1]))
        else:
            items.append((1, 'w', t[:-1]))
        while rng.random() < .15:
            n = layout.nop(rng)
            items.append((1, n['kind'], n['text']))
    nl = rng.choice(NLS)
    out, run = [], []

    def flush():
        if run:
            out.append(layout.lay(list(run), win, rng, nl)[0])
            del run[:]
    for it in items:
        run.append(it if it[1] == 'w' or not it[2].startswith('AM') else (1, 'p', it[2].replace('\n', nl)))
        if it[2].startswith('AM'):           # nothing shares a block behind a macro
            flush()
    flush()
    return nl.join(out) if rng.random() < .5 else ''.join(out)


def macros(ck, win, n):
    rng = ck.rng
    g = ck.tlc('MacroGen', workers=4, simulate=max(1, n // 4), depth=80)
    walks = sorted(g.lines('P'), key=str)
    tasks = [{'text': relay(gmacro.text(p, rng), win, rng)} for p in walks]
    traces = [{'cmds': p} for p in walks]
    obs = ck.drive('macro', tasks)
    for t, o in zip(traces, obs):
        t['obs'] = o
    ck.sample({'text': tasks[0]['text']})
    v = ck.validate('MacroTrace', traces, batch=1500)
    ck.judge(traces, v, inputs=[t['text'] for t in tasks])


XCOMMENTS = ['; a comment', ';', ';comment X1Y1', '; T01C0.5', '', '', '   ', ';FORMAT', '; M30', ';X01Y02', '; G00', ';R05X1']


def xlay(text, rng):
    lines = text.split('\n')[:-1]
    p = rng.choice([0, .1, .4])
    out = []
    for k, ln in enumerate(lines):
        while rng.random() < p:
            out.append(rng.choice(XCOMMENTS))
        out.append(ln)
    return rng.choice(NLS).join(out + [''])


def excellon(ck, n):
    rng = ck.rng
    e, w = xrun.programs(ck, n // 2, n)
    tasks, traces = [], []
    for p in e + w:
        tk, tr = xrun.concretise(p, rng, [])
        tk['text'] = xlay(tk['text'], rng)
        tasks.append(tk)
        traces.append(tr)
    tasks, traces, obs = ck.answered(tasks, traces, ck.drive('excellon', tasks))
    for t, o in zip(traces, obs):
        t['obs'] = o['obs']
        for s in t['obs']:
            s.pop('tb', None)
    for t in tasks[-1:]:
        ck.sample({'text': t['text']})
    v = ck.validate('ExcellonTrace', traces, batch=1500)
    ck.judge(traces, v, inputs=tasks)


def run(ck):
    r = ck.design('LayoutMC', 'LayoutMCq' if ck.quick else 'LayoutMC', workers=1)
    ck.design('IncludeMC', 'IncludeMC' if ck.quick else 'IncludeMCt', workers=4)
    win = layout.Windows(r.lines('P'), ck.rng)
    g = ck.tlc('GerberGen', workers=4, simulate=300 if ck.quick else 4000, depth=80)
    walks = sorted(g.lines('P'), key=str)
    ck.notes['gerber_programs'] = len(walks)
    gerber(ck, win, walks)
    macros(ck, win, 200 if ck.quick else 4000)
    excellon(ck, 800 if ck.quick else 8000)
