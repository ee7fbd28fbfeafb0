"""C18: recognition.  spec/Settings.tla, SettingsMC (design and walks), SettingsTrace."""


def line(l, rng):
    c = l['c']
    if c == 'words':
        return l['t']
    if c == 'fs':
        f = '%d%d' % tuple(l['f'])
        return '%%FS%s%sX%sY%s*%%' % (l['z'][0].upper(), l['n'][0].upper(), f, f)
    if c == 'mo':
        return (('G70*', 'G71*') if l['old'] else ('%MOIN*%', '%MOMM*%'))[l['u'] == 'metric']
    if c == 'unit':
        return ('INCH' if l['u'] == 'inch' else 'METRIC') + (',' + l['z'][0].upper() + 'Z' if l['z'] else '') + (',%s.%s' % ('0' * l['f'][0], '0' * l['f'][1]) if l['f'] else '') + rng.choice(['', '', '', ' ; format', ';X'])
    if c == 'meas':
        return 'M72' if l['u'] == 'inch' else 'M71'
    return {'m48': 'M48', 'ici': 'ICI,%s' % ('ON' if l.get('n') == 'incremental' else 'OFF'), 'xabs': 'G90', 'ff': ';FILE_FORMAT=%s' % ':'.join(map(str, l.get('f', []))),
            'job': 'P  JOB' + rng.choice([' x', '   BOARD 7']), 'cust': 'P  UNITS %s' % l.get('v'), 'coords': 'COORDINATES %s' % l.get('n', '').upper(),
            'outu': 'OUTPUT-UNITS %s' % ('ENGLISH' if l.get('u') == 'inch' else 'METRIC'), 'int': 'INTEGER-PLACES %s' % l.get('v'), 'dec': 'DECIMAL-PLACES %s' % l.get('v')}[c]


TAIL = {'rs274x': [[], ['M02*'], ['%ADD10C,0.1*%', 'D10*', 'X0Y0D03*', 'M02*']],
        'excellon': [['%', 'M30'], ['T1C0.02', '%', 'T1', 'X1.5Y2.25', 'M30'], ['M95', 'M30']],
        'ipc_d_356': [['999'], [], ['327GND              C1    -1   M      A01X-000970Y+010402X1575Y0630R000 S2', '999']], 'param': [[]], 'none': [[]]}


def run(ck):
    rng = ck.rng
    d = ck.design('SettingsMC', 'SettingsMCq' if ck.quick else 'SettingsMC', workers=4, timeout=1500).lines('P')
    w = ck.tlc('SettingsMC', 'SettingsGen', workers=4, simulate=50 if ck.quick else 2500, depth=11).lines('P')
    ps = sorted(d, key=str) + sorted(w, key=str)
    ck.notes.update({'histories_' + m: sum(1 for p in ps if p['m'] == m) for m in ('object', 'rs274x', 'excellon', 'ipc_d_356', 'none', 'param')})
    tasks = []
    for p in ps:
        t = dict(p)
        if p['m'] != 'object':
            f = rng.random() < .15 and p['m'] != 'param'
            eol = rng.choice(['\n', '\n', '\r\n'] + (['\r'] if f else []))
            ls = []
            for l in p['h']:        # lines without a meaning may be many
                ls += [line(l, rng)] * (rng.choice([2, 9, 70, 150, 1100]) if l['c'] == 'words' and rng.random() < .05 else 1)
            tail = rng.choice(TAIL[p['m']])
            if p['m'] == 'excellon' and 'M48' in ls and rng.random() < .15:       # some are declared after the header
                lo = max(k for k, x in enumerate(ls) if x == 'M48' or x[:1] == 'T')
                ls.insert(rng.randrange(lo + 1, len(ls) + 1), '%')
                tail = rng.choice([['M30'], ['G05', 'M30'], []])
            t.update(text=eol.join(ls + tail) + eol, file=f)
        tasks.append(t)
    obs = ck.drive('settings', tasks)
    traces = [{'m': p['m'], 'h': p['h'], 'obs': o} for p, o in zip(ps, obs)]
    for k in (0, len(ps) // 2, len(ps) - 1):
        ck.sample({'task': tasks[k], 'observed': obs[k]})
    v = ck.validate('SettingsTrace', traces)
    ck.judge(traces, v, inputs=tasks)
