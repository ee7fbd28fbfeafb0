import os, sys, copy, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from obs import *
from gerber import rs274x
from gerber.cam import FileSettings
from gerber.render.rs274x_backend import Rs274xContext


def flat(x):
    if isinstance(x, list):
        return [v for y in x for v in flat(y)]
    return [x]


def macro_ap(p, sc):
    """a macro group as a descriptor: structure in sh, numbers in s"""
    at = p.position or (0, 0)
    parts = []
    for s in p.primitives:
        c = copy.deepcopy(s)
        c.offset(-at[0], -at[1])
        m = mpart(c, Scale(sc.cs, sc.ss, 0.5))
        if m['k'] == 'polygon':
            m['k'] += str(m['z'].pop(1))
        parts.append(m)
    sh = 'M' + ';'.join('%s.%s.%d.%d' % (m['k'], m['pol'], len(m['pts']), len(m['z'])) for m in parts)
    return {'sh': sh, 's': flat([[m['pts'], m['z'], m.get('ends', [])] for m in parts]), 'h': [], 'n': -1, 'rot': 0}


def ap2(p, sc):
    return macro_ap(p, sc) if type(p).__name__ == 'AMGroup' else ap(p, sc)


def prim2(p, sc):
    n = type(p).__name__
    if n == 'AMGroup':
        return {'k': 'flash', 'p': qp(p.position, sc.cs, sc.tol), 'ap': macro_ap(p, sc),
                'pol': str(p.level_polarity), 'u': str(p.units)}
    r = prim(p, sc)
    if 'ap' in r and n in ('Line', 'Arc'):
        r['ap'] = ap2(p.aperture, sc)
    return r


def handle(t):
    sc = Scale(t['cs'], t['ss'], 0.02)
    stage = 'load'
    try:
        files = [rs274x.loads(x) for x in t['texts']]
        if t.get('conv'):
            for f in files:
                f.to_metric()
        prims = [p for f in files for p in f.primitives]
        for dx, dy in t.get('copies', []):
            for f in files[:1]:
                for p in copy.deepcopy(f.primitives):
                    p.offset(float(dx) / t['cs'], float(dy) / t['cs'])
                    prims.append(p)
        if t.get('perm') is not None:
            key = t['perm']
            order = sorted(range(len(prims)), key=lambda k: (k * key) % 10007)
            prims = [prims[k] for k in order]
        img = lambda: [prim2(p, sc) for p in prims]
        objs = img()
        st = files[0].settings
        if t.get('fmt'):
            st = FileSettings('absolute', files[0].units, t['fmt'][2], tuple(t['fmt'][:2]))
        # objects built by programs often leave the polarity unset: dark, or that of their region
        if t.get('strip'):
            for p in prims:
                if p.level_polarity == 'dark':
                    p.level_polarity = None
                if type(p).__name__ == 'Region':
                    for s in p.primitives:
                        s.level_polarity = None
        before = img()
        stage = 'render'
        ctx = Rs274xContext(st)
        if t.get('flags', 0) & 1:
            ctx.condensed_flash = False
        if t.get('flags', 0) & 2:
            ctx.explicit_region_move_end = True
        if t['how'] == 'file':
            for f in files:
                f.render(ctx)
        else:
            for p in prims:
                ctx.render(p)
        text = ctx.dump().getvalue()
        same = img() == before and text == ctx.dump().getvalue()
        stage = 'reread'
        back = rs274x.loads(text)
        obs = [prim2(p, sc) for p in back.primitives]
        stage = 'probe'
        head = ''.join(re.findall(r'%[^%]*%\s*', text))
        shapes = {}
        for d, sh in re.findall(r'%ADD(\d+)([^,*]+)', head):
            if sh in 'CROP':
                continue
            # everything up to this definition, then one flash
            upto = text[:re.search(r'%%ADD%s[^%%]*%%' % d, text).end()]
            fl = rs274x.loads(upto + '\nD%s*\nX0Y0D03*\nM02*\n' % d).primitives
            shapes[d] = prim2(fl[0], sc)['ap'] if len(fl) == 1 else {'sh': 'none', 's': [], 'h': [], 'n': -1, 'rot': 0}
        return {'objs': objs, 'obs': obs, 'text': text, 'same': same, 'shapes': shapes, 'units': str(files[0].units)}
    except Exception as e:
        return {'err': '%s: %s' % (type(e).__name__, e), 'stage': stage,
                'tb': traceback.format_exc().splitlines()[-4:]}


main(handle)
