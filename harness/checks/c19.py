"""C19: corners, equality and equivalence of graphic objects.  spec/Shape.tla, ShapeMC
(design: corners against boxes, equivalence as a relation; all histories to a depth
and all pairs), ShapeTrace (validation)."""
QUERY = {'o': 'query', 'n': 0, 'a': '', 'v': [], 'w': {}}


def run(ck):
    rng = ck.rng
    st = ck.design('ShapeMC', 'ShapeMCs', workers=4).lines('P')
    dy = ck.design('ShapeMC', 'ShapeMCq' if ck.quick else 'ShapeMC', workers=4, timeout=1500).lines('P')
    ps = ck.design('ShapeMC', 'ShapeMCp', workers=4).lines('P')
    for l in (st, dy, ps):
        l.sort(key=str)
    tasks = [{'k': 'hist', 'obj': p['obj'], 'ops': [QUERY]} for p in st]
    for p in dy:
        ops = p['ops'] + [QUERY]
        if rng.random() < .6:
            ops = [QUERY] + ops
        tasks.append({'k': 'hist', 'obj': p['obj'], 'ops': ops})
    for p in ps:
        tasks.append({'k': 'pair', 'pair': p, 'u': rng.choice(['inch', 'metric']), 'ask': rng.randrange(3)})
    ck.notes.update(static_objects=len(st), histories=len(dy), pairs=len(ps))
    obs = ck.drive('shape', tasks)
    traces, inputs = [], []
    for t, o in zip(tasks, obs):
        if o['err']:
            ck.fail('raised', {'error': o['err'], 'tb': o.get('tb'), 'input': t})
            continue
        traces.append(dict({k: t[k] for k in ('k', 'obj', 'ops', 'pair') if k in t}, obs=o['obs']))
        inputs.append({k: t[k] for k in ('u', 'ask') if k in t} or None)
    for k in (0, len(st) + 5, len(traces) - 1):
        ck.sample(traces[k:k + 1])
    ck.judge(traces, ck.validate('ShapeTrace', traces, batch=3000), inputs=inputs)
