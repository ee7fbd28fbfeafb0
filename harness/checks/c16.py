"""C16: reports, path lengths, hit counts and tool updates.  Excellon, ExcellonMC,
ExcellonGen, ExcellonTrace."""
import xrun

KW = {'feed_rate': [1, 55, 0], 'retract_rate': [2, 85, 0], 'rpm': [3, 100, 0], 'max_hit_count': [4, 2000, 0], 'depth_offset': [.5, 1.5, 0, 0]}


def defined(p):
    """tools that are in the file for certain"""
    return sorted({c['n'] for c in p['cmds'] if c['c'] == 'tdef'})


def ops(p, rng):
    o = [{'o': 'rep', 'v': [0, 0]}]
    ns = defined(p)
    for k in range(rng.randrange(1, 4)):
        r = rng.random()
        if r < .5 and ns:
            kw = {n: rng.choice(v) for n, v in KW.items() if rng.random() < .3}
            o.append({'o': 'upd', 'n': rng.choice(ns), 'd': rng.choice([0, rng.randrange(1, 41), rng.randrange(1, 41)]), 'kw': kw, 'v': [0, 0]})
        elif r < .6:
            o.append({'o': 'conv', 'u': rng.choice(['inch', 'metric']), 'v': [0, 0]})
        elif r < .75:
            o.append({'o': 'off', 'v': [rng.randrange(-6, 7), rng.randrange(-6, 7)]})
        elif r < .82:
            o.append({'o': 'rw', 'v': [0, 0]})
        elif r < .92:
            o.append({'o': 'perm', 'how': rng.choice(['reverse', 'rotate', 'same']), 'v': [0, 0]})
        o.append({'o': 'rep', 'v': [0, 0]})
    # a diameter set on a tool is not kept by every writer: the update comes after the last re-write
    # and rounding of a re-written file after a conversion is not on the grid
    if any(x['o'] == 'conv' for x in o):
        o = [x for x in o if x['o'] != 'rw']
    ups = [x for x in o if x['o'] == 'upd']
    return [x for x in o if x['o'] != 'upd' and x['o'] != 'rep'] + [y for x in ups for y in (x, o[0])] + [o[0]]


def run(ck):
    e, w = xrun.programs(ck, 2000 if ck.quick else 30000, 1000 if ck.quick else 8000)
    xrun.run(ck, e + w, ops)
