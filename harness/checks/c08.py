"""C08: drill files survive being written and read again.  Excellon, ExcellonMC,
ExcellonGen, ExcellonTrace; with conversions and copies: FilesMC, FilesTrace."""
import hist
import xrun


def ops(p, rng):
    o = []
    if rng.random() < .3:
        o.append({'o': 'off', 'v': [rng.randrange(-6, 7), rng.randrange(-6, 7)]})
    if rng.random() < .2:
        o.append({'o': 'perm', 'how': rng.choice(['reverse', 'rotate', 'same']), 'v': [0, 0]})
    o.append({'o': 'rw', 'v': [0, 0]})
    if rng.random() < .3:
        o.append({'o': 'off', 'v': [rng.randrange(-6, 7), rng.randrange(-6, 7)]})
        o.append({'o': 'rw', 'v': [0, 0]})
    return o


def run(ck):
    e, w = xrun.programs(ck, 2500 if ck.quick else 40000, 1000 if ck.quick else 8000)
    xrun.run(ck, e + w, ops)
    # conversions, copies and offsets before (and after) writing
    hist.run(ck, lambda h: any(o['o'] == 'rw' for o in h) and all(o['o'] != 'poke' for o in h),
             400 if ck.quick else 6000, 0, 0, 400 if ck.quick else 4000)
