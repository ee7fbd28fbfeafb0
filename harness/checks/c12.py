"""C12: bounding boxes.  spec/BBox.tla, BBoxMC (design: memo protocol, algebra of
boxes; all histories to a depth), BBoxTrace (validation)."""
import re

import hist

QUERY = {'o': 'query', 'n': 0, 'a': '', 'v': [], 'w': {}}


def run(ck):
    rng = ck.rng
    st = ck.design('BBoxMC', 'BBoxMCs', workers=4).lines('P')
    dy = ck.design('BBoxMC', 'BBoxMCq' if ck.quick else 'BBoxMC', workers=4, timeout=1500).lines('P')
    ck.must_fail('BBoxMC', 'BBoxMCv', 'MemoCurrent', 'a forgetful memo')
    tasks = []
    for p in st:
        tasks.append({'k': 'hist', 'obj': p['obj'], 'ops': [QUERY]})
    # histories: a query at the end always, at the start mostly
    dy.sort(key=str)
    for p in dy:
        ops = p['ops'] + [QUERY]
        if rng.random() < .6:
            ops = [QUERY] + ops
        tasks.append({'k': 'hist', 'obj': p['obj'], 'ops': ops})
    ck.notes['static_objects'] = len(st)
    ck.notes['histories'] = len(dy)
    # files
    gs, ms, xs = hist.bases(ck, 200 if ck.quick else 3000, 120 if ck.quick else 2000, 120 if ck.quick else 2000)
    inputs = [None] * len(tasks)
    bs = [hist.base_gerber(g, rng) for g in gs] + [hist.base_macro(m, rng) for m in ms] + [hist.base_drill(x, rng) for x in xs]
    for b in bs:
        if b is None:
            continue
        ops = []
        for k in range(rng.randrange(0, 5)):
            o = rng.choice(['query', 'query', 'conv', 'off'])
            ops.append({'o': o, 'a': rng.choice(['inch', 'metric']), 'v': [254 * rng.randrange(-2000, 2000) for _ in 'xy']})
        tasks.append({'k': 'file', 'text': b['text'], 'ops': ops, 'drill': b.get('drill')})
        inputs.append({'text': b['text'], 'ops': ops})
    ck.notes['files'] = len(tasks) - len(st) - len(dy)
    obs = ck.drive('bbox', tasks)
    traces = []
    for n, (t, o) in enumerate(zip(tasks, obs)):
        if o['err']:
            traces.append({'k': 'hist', 'obj': {'k': t['k']}, 'ops': [QUERY], 'obs': []})
            ck.fail('read-raised' if t['k'] == 'file' else 'raised', {'error': o['err'], 'tb': o.get('tb'), 'input': t})
        elif t['k'] == 'hist':
            traces.append({'k': 'hist', 'obj': t['obj'], 'ops': t['ops'], 'obs': o['obs']})
        else:
            traces.append({'k': 'file', 'objs': o['objs'], 'obs': o['obs'], 'fbox': o['fbox']})
    good = [k for k, o in enumerate(obs) if not o['err']]
    for k in (0, len(st) + 5, len(traces) - 1):
        ck.sample({'task': tasks[k], 'observed': obs[k].get('obs') if k < len(st) + len(dy) else obs[k].get('fbox')})
    traces = [traces[k] for k in good]
    v = ck.validate('BBoxTrace', traces, batch=1500)
    ck.judge(traces, v, inputs=[inputs[k] for k in good])
