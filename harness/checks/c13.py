"""C13: IPC-D-356 netlists.  spec/Ipc.tla, IpcMC (design), IpcGen (walks), IpcTrace."""
import ipctext


def run(ck):
    rng = ck.rng
    st = ck.design('IpcMC', 'IpcMCs', workers=2).lines('P')
    dy = ck.design('IpcMC', 'IpcMCq' if ck.quick else 'IpcMC', workers=4, timeout=1500).lines('P')
    w = ck.tlc('IpcGen', workers=4, simulate=150 if ck.quick else 3000, depth=60).lines('P')
    ck.notes.update(single_records=len(st), line_sequences=len(dy), random_files=len(w))
    progs = sorted(st, key=str) * 2 + sorted(dy, key=str) + sorted(w, key=str)
    tasks = [{'text': ipctext.text(p, rng), 'file': rng.random() < .2} for p in progs]
    obs = ck.drive('ipc', tasks)
    traces = [{'lines': p, 'obs': o} for p, o in zip(progs, obs)]
    for k in (0, len(st) * 2, len(traces) - 1):
        ck.sample({'text': tasks[k]['text'], 'observed': obs[k].get('st')})
    v = ck.validate('IpcTrace', traces)
    ck.judge(traces, v, inputs=[t['text'] for t in tasks])
