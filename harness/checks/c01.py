"""C01: Gerber reading.  spec/Gerber.tla, GerberMC (design), GerberGen (walks),
GerberTrace (validation)."""
import gtext

FMTS = [(2, 4), (2, 3), (3, 4), (3, 3), (2, 5), (4, 4), (2, 6), (3, 5), (4, 6), (1, 6)]


def concretise(ck, cmds, rng):
    fmt = rng.choice(FMTS)
    zs = rng.choice('LLLT')
    top = 10 ** sum(fmt) - 1
    k = min(rng.choice([1, 7, 10, 100, 123, 250, 1000, 1999]), top // gtext.maxco(cmds))
    k = max(1, min(k, 20000 // gtext.maxco(cmds)))
    m = rng.choice([1, 10, 35, 100, 1000])
    c = gtext.scale(cmds, k, m)
    style = {'nl': '\n', 'short': rng.choice([0, 0, .5]), 'g54': rng.choice([0, 0, .5]),
             'units': rng.choice(['MO', 'MO', 'G7']), 'plus': 0}
    txt = gtext.text(c, fmt, zs, rng, style)
    return c, {'text': txt, 'cs': 10 ** fmt[1], 'ss': 10 ** 5}


def run(ck):
    rng = ck.rng
    progs = []
    r = ck.design('GerberMC', 'GerberMCq' if ck.quick else 'GerberMC', workers=1, timeout=900)
    edges = r.lines('P')
    n = 2500 if ck.quick else 60000
    edges = rng.sample(edges, min(n, len(edges)))
    r = ck.tlc('GerberGen', workers=4, simulate=600 if ck.quick else 6000, depth=80)
    walks = sorted(r.lines('P'), key=lambda p: str(p))
    ck.notes['edge_programs'] = len(edges)
    ck.notes['walk_programs'] = len(walks)
    traces, tasks = [], []
    for p in edges + walks:
        c, t = concretise(ck, p, rng)
        traces.append({'cmds': c})
        tasks.append(t)
    obs = ck.drive('gerber_read', tasks)
    for t, o in zip(traces, obs):
        t['obs'] = o
    for k in (0, len(edges) // 2, len(edges), len(traces) - 1):
        ck.sample({'text': tasks[k]['text'], 'observed': obs[k]})
    v = ck.validate('GerberTrace', traces)
    ck.judge(traces, v, inputs=[t['text'] for t in tasks])
