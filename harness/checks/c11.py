"""C11: aperture macros.  spec/Macro.tla, MacroMC (design of the expression
compiler), MacroGen (random programs), MacroTrace."""
import gmacro


def T(a, b=1):
    return [{'t': 'n', 'a': a, 'b': b}]


def expr_programs(cases, rng):
    """every expression of the design run becomes the position of a circle;
    several per macro"""
    progs, cur = [], []
    k = 0
    cases = list(cases)
    rng.shuffle(cases)

    def prim(m):
        return {'b': 'prim', 'code': 1, 'm': m, 'n': 0, 'e': []}

    def setb(n, e):
        return {'b': 'set', 'code': 0, 'm': [], 'n': n, 'e': e}
    for c in cases:
        r = rng.random()
        if r < .4:
            b = [prim([T(1), T(2), c['e'], T(0)])]
        elif r < .8:
            b = [prim([T(1), T(2), T(1, 4), c['e']])]
        else:
            b = [setb(7, c['e']), prim([T(1), T(2), [{'t': 'v', 'a': 7, 'b': 1}], T(0)])]
        cur += b
        if len(cur) >= 12:
            progs.append(cur)
            cur = []
    if cur:
        progs.append(cur)
    return [[{'c': 'AM', 'name': 'EXPR', 'blocks': b}, {'c': 'AD', 'd': 10, 'name': 'EXPR', 'params': [[3, 1]]},
             {'c': 'FL', 'd': 10, 'p': [0, 0]}] for b in progs]


def run(ck):
    rng = ck.rng
    r = ck.design('MacroMC', 'MacroMCq' if ck.quick else 'MacroMC', workers=1)
    cases = [c for c in r.lines('P') if c['v'] and abs(c['v'][0]) <= 20 * c['v'][1]]
    progs = expr_programs(cases, rng)
    ck.notes['expressions'] = len(cases)
    g = ck.tlc('MacroGen', workers=4, simulate=60 if ck.quick else 1500, depth=80)
    walks = sorted(g.lines('P'), key=str)
    # moire primitives: known not to be drawn; what surrounds them must be right
    MO = {'b': 'prim', 'code': 6, 'n': 0, 'e': [], 'm': [
        T(0), T(0), T(5), T(1, 2), T(1, 2), T(2), T(1, 10), T(6), T(30)]}
    moire = [[{'c': 'AM', 'name': 'MOIRE', 'blocks': [MO]},
              {'c': 'AD', 'd': 10, 'name': 'MOIRE', 'params': []}, {'c': 'FL', 'd': 10, 'p': [100, 200]}]]
    for w in walks[:20]:
        moire.append([dict(c, blocks=c['blocks'][:1] + [MO] + c['blocks'][1:]) if c['c'] == 'AM' else c for c in w])
    ck.notes['random_programs'] = len(walks)
    traces, tasks = [], []
    for p in progs + walks + moire:
        traces.append({'cmds': p})
        tasks.append({'text': gmacro.text(p, rng)})
    obs = ck.drive('macro', tasks)
    for t, o in zip(traces, obs):
        t['obs'] = o
    for k in (0, len(progs), len(traces) - 2):
        ck.sample({'text': tasks[k]['text'], 'observed': obs[k]})
    ck.judge(traces, ck.validate('MacroTrace', traces), inputs=[t['text'] for t in tasks])
