"""C07: devices sharing serial ports."""
import json
import random


NAMES = ['/dev/ttyUSB0', '/dev/ttyUSB1', '/dev/ttyUSB10', '/dev/ttyUSB', 'COM3', 'COM33', 'COM1', 'com', '/dev/ttyS0', 'port 1',
         '/dev/serial/by-id/usb-FTDI_A-if00-port0', '0', 'socket://10.0.0.1:7000', r'\\.\COM12']


def finish(rng, script):
    ops = []
    for x in script:
        x = dict(x)
        if x['op'] == 'device':
            x['fail'] = rng.choice(['serial', 'os', 'value']) if x['fail'] else None
            x['via'] = rng.choice(['modbus', 'modbus', 'client'])
        ops.append(x)
    return ops


def histories(rng, count):
    out = []
    for n in range(count):
        ports = rng.sample(NAMES, rng.choice([1, 1, 2, 3, 5]))
        bauds = rng.choice([[0], [0, 9600], [0, 19200, 9600], [19200]])
        pars = rng.choice([[''], ['', 'N'], ['', 'E', 'N'], ['E']])
        many = rng.random() < .1
        units = list(range(256)) if many else rng.choice([[1, 2, 3, 17], [0, 1, 2], [0, 247, 255], [10, 1, 100, 11]])
        ops = []
        d = 0
        for _ in range(rng.randrange(40, 90) if many else rng.randrange(3, 25)):
            k = rng.random()
            if k < (.7 if many else .4) or not d:
                d += 1
                ops.append({'op': 'device', 'd': d, 'port': rng.choice(ports), 'unit': rng.choice(units), 'baud': rng.choice(bauds),
                            'par': rng.choice(pars), 'to': rng.choice(['', '', '2.0', '0.1', '30.0']),
                            'fail': rng.random() < .15})
            elif k < .75:
                ops.append({'op': 'close', 'd': rng.randrange(1, d + 1)})
            else:
                ops.append({'op': 'read', 'd': rng.randrange(1, d + 1), 'addr': rng.randrange(60000), 'cnt': rng.randrange(1, 9)})
        # at the end everything is closed, then used anew
        order = list(range(1, d + 1))
        rng.shuffle(order)
        if rng.random() < .7:
            ops += [{'op': 'close', 'd': x} for x in order]
            ops.append({'op': 'device', 'd': d + 1, 'port': ports[0], 'unit': 1, 'baud': 0, 'par': 'E', 'to': '', 'fail': False})
            ops.append({'op': 'read', 'd': d + 1})
            ops += [{'op': 'close', 'd': x} for x in order[:3]]
            ops.append({'op': 'read', 'd': d + 1})
        out.append({'id': 'ph%d' % n, 'ops': finish(rng, ops)})
    return out


def props_of(clause, trace, at, scenario):
    return {'C07'}


def main(run):
    rng = random.Random(run.seed * 7919 + 7)
    big = run.thorough
    base = dict(Names={'p'}, Units={1, 2}, Bauds={0, 19200}, Pars={''}, Tos={'', '2.0'}, MaxDev=3, Depth=7, Mut='none', Record=False)
    run.mc('MCRtuPorts', base, ['NoViolation', 'Agreement'], label='one port, three devices, 7 calls')
    run.mc('MCRtuPorts', dict(base, Names={'p', 'q'}, Depth=7 if big else 6, Tos={''}, MaxDev=4 if big else 3),
           ['NoViolation', 'Agreement'], label='two ports')
    run.mc('MCRtuPorts', dict(base, Bauds={0, 9600, 19200}, Pars={'', 'E'}, Depth=8 if big else 6, Tos={''}),
           ['NoViolation', 'Agreement'], label='all settings')
    for mut in ('anysettings', 'failreg', 'anydevice', 'closeany', 'leave', 'anyclient', 'twostop'):
        run.mc('MCRtuPorts', dict(base, Mut=mut), ['NoViolation'], label='design error ' + mut, killed_by=['NoViolation'])
    r = run.mc('MCRtuPorts', dict(base, Names={'p', 'q'}, Bauds={0, 9600, 19200}, Pars={'', 'E'}, MaxDev=6, Depth=12, Record=True),
               ['PrintScripts'], label='scripts', simulate=6000 if big else 1500, depth=14, seed=run.seed, workers=1)
    sc = []
    for p in r.prints:
        if p.startswith('SCRIPT '):
            sc.append({'id': 'pm%d' % len(sc), 'ops': finish(rng, json.loads(p[7:]))})
    run.notes['model_behaviours_replayed'] = len(sc)
    sc += histories(rng, 8000 if big else 1000)
    run.conform('rtuports', sc, 'RtuPortsTrace', props_of)
    run.assumptions.append('devices open at the same time on one port have distinct slave ids; closing a serial port does not fail')
