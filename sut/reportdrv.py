"""Runs of the command line tool."""
import contextlib
import io
import os
import runpy
import sys
import traceback

from common import Hang, REPO, limit, main
import fakes
from sunspecdrv import World, device, map_xml, mc
from values import codes, definition_xml, line

SCRATCH = os.environ.get('VF_SCRATCH', '/tmp')
SCRIPT = os.path.join(REPO, 'scripts', 'suns.py')


class Port(fakes.FakeSerial):
    def opening(self):
        w = self.world
        how = w.plan.get('conn', 'ok')
        w.log.append({'e': 'open', 'host': str(self.port), 'port': int(self.baudrate)})
        if how != 'ok':
            raise w.error('serial')
        fakes.FakeSerial.opening(self)


fakes.install(Port)


def execute(s, argv, want, d, plan):
    cfg = s['cfg']
    tp = want['tp']
    w = World('rtu' if tp == 'rtu' else 'tcp', want['unit'], cfg['segs'])
    units, times = set(), set()
    ask = w.request

    def request(chan, data):
        units.add(data[0] if tp == 'rtu' else data[6])
        times.add(chan.timeout_text())
        ask(chan, data)
    w.request = request
    fakes.use(w)
    w.start_call(plan)
    mc.modbus_rtu_clients.clear()
    getattr(device, 'model_types', {}).clear()
    out, err = io.StringIO(), io.StringIO()
    e = {'e': 'report', 'status': 0, 'trouble': ''}
    old = sys.argv
    sys.argv = argv
    try:
        with device.fresh_file_pathlist(d), contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), limit(40):
            try:
                runpy.run_path(SCRIPT, run_name='__main__')
            except SystemExit as x:
                e['status'] = 0 if x.code is None else x.code if isinstance(x.code, int) else 1
                if isinstance(x.code, str):
                    print(x.code, file=sys.stderr)
    except Hang:
        e['trouble'] = 'hang'
    except Exception as x:
        e['trouble'] = '%s: %s' % (type(x).__name__, x)
        e['where'] = traceback.format_exc()[-300:]
    finally:
        sys.argv = old
    return w, e, out, err, units, times


def run(s):
    cfg = s['cfg']
    o = s['options']
    d = os.path.join(SCRATCH, 'smdx')
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        os.remove(os.path.join(d, f))
    for x in cfg['defs']:
        with open(os.path.join(d, 'smdx_%05d.xml' % x['id']), 'w') as f:
            f.write(definition_xml(x))
    argv = [SCRIPT]
    want = {'tp': o.get('t', 'tcp'), 'unit': o.get('a', 1), 'host': o.get('i', 'localhost'), 'port': o.get('P', 502),
            'to': repr(float(o.get('T', 2.0))), 'dev': o.get('p', '/dev/ttyUSB0'), 'baud': o.get('b', 9600)}
    tp = want['tp']
    for k, v in sorted(o.items()):
        argv += ['-' + k, str(v)]
    if tp == 'mapped':
        path = os.path.join(SCRATCH, 'report_map.xml')
        if s.get('map', 'good') != 'absent':
            with open(path, 'w') as f:
                f.write(map_xml(cfg['segs']) if s.get('map', 'good') == 'good' else s['map'])
        elif os.path.exists(path):
            os.remove(path)
        argv += ['-m', path]
    if 'cut' in s:
        # how many requests a run makes, to have it fail at one of them and ever after
        n = execute(s, argv, want, d, {})[0].sends
        s = dict(s, plan={'replies': [{}] * int(s['cut'] * n), 'then': s['then']}, reach=not n)
    w, e, out, err, units, times = execute(s, argv, want, d, s.get('plan'))
    e['want'], e['reach'] = want, s['reach']
    e['opened'] = [{k: x[k] for k in ('host', 'port')} for x in w.log if x['e'] == 'open']
    e['units'] = sorted(units)
    e['times'] = sorted(times)
    text = [x for x in out.getvalue().split('\n') if x.strip() and not x.startswith('Timestamp')]
    e['lines'] = [line(x) for x in text]
    if not text and err.getvalue().strip():
        e['lines'] = [line(err.getvalue().strip().split('\n')[-1])]
    defs = []
    for x in cfg['defs']:
        def pts(ps):
            return [dict(p, lab=codes(p.get('label')), un=codes(p.get('units')), idc=codes(p['id'])) for p in ps]
        defs.append(dict(x, lab=codes(x.get('label')), fp=pts(x['fp']), rp=pts(x['rp'])))
    return {'cfg': {'via': tp, 'defs': defs, 'segs': cfg['segs'], 'maxread': 125}, 'ev': [e], 'text': text}


if __name__ == '__main__':
    main(run)
