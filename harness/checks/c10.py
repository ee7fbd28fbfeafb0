"""C10: drill files generated through the Excellon drawing context have the holes
and slots of the drawing.  Excellon, ExcellonMC, ExcellonGen, ExcellonTrace."""
import xrun


def ops(p, rng):
    o = []
    if rng.random() < .3:
        o.append({'o': 'off', 'v': [rng.randrange(-6, 7), rng.randrange(-6, 7)]})
    if rng.random() < .1:
        o.append({'o': 'perm', 'how': rng.choice(['reverse', 'rotate', 'same']), 'v': [0, 0]})
    o.append({'o': 'ctx', 'v': [0, 0]})
    if rng.random() < .2:
        o.append({'o': 'rw', 'v': [0, 0]})
    elif rng.random() < .2:
        o.append({'o': 'ctx', 'v': [0, 0]})
    return o


def run(ck):
    e, w = xrun.programs(ck, 2500 if ck.quick else 40000, 1000 if ck.quick else 8000)
    xrun.run(ck, e + w, ops)
