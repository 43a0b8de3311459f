"""C24: the report of the command line tool."""
import random

from vf.g_sunspec import NONE, Dev, definition, device, fault, ids, tiny

LABELS = ['Amps', 'AC Current', 'Watts', 'DC Voltage', 'Operating State', 'Temp', 'Max', 'x', 'Event 1', 'Power Factor (PF)', 'S: 2', 'm\u00b2', 'Enter Service Delay Time Before Reconnection After A Grid Event In Seconds, Randomized']
UNITS = ['A', 'V', 'W', 'Hz', 'C', 'Pct', '%', 'VAr', 'cos()', 'kWh/m2', 'Degrees C', '1', 'Thousandths of a degree per hour']


def dress(rng, d):
    """labels and units; texts that fit on a line"""
    if rng.random() < .6:
        d['label'] = rng.choice(['Inverter', 'AC Meter', 'Common', 'Strings (2)', 'MPPT', 'Flow Battery String Model With A Very Long Label That Needs A Line Of Its Own'])
    both = {p['id'] for p in d['fp']} & {p['id'] for p in d['rp']}
    for p in d['fp'] + d['rp']:
        p.pop('units', None)
        if rng.random() < .6 and p['id'] not in both:
            p['label'] = rng.choice(LABELS)
        if rng.random() < .5:
            p['units'] = rng.choice(UNITS)
        if p['t'] in ('bitfield16', 'bitfield32'):
            p['sf'] = NONE


def texts(rng, v):
    """strings hold printable characters"""
    for mid, addr, ln, blocks in v.models:
        for b in blocks:
            for p, a in b:
                if p['t'] == 'string':
                    n = rng.choice([0, 1, 2 * p['len'], rng.randrange(2 * p['len'] + 1)])
                    c = [rng.choice([32, 46, 95, 40, 58, 48, 65 + rng.randrange(26), 97 + rng.randrange(26), rng.randrange(33, 127)]) for _ in range(n)]
                    c += [0] * (2 * p['len'] - n)
                    for i in range(p['len']):
                        if a - v.base + i < len(v.words):
                            v.words[a - v.base + i] = c[2 * i] * 256 + c[2 * i + 1]


def bits(rng, d):
    for p in d['fp'] + d['rp']:
        if p['len'] == 1 and p['t'] not in ('pad', 'sunssf', 'string') and rng.random() < .2:
            p.update(t='bitfield16', sf=NONE)
        elif p['len'] == 2 and p['t'] != 'string' and rng.random() < .2:
            p.update(t='bitfield32', sf=NONE)


def scenarios(rng, count):
    out = []
    for n in range(count):
        tp = rng.choice(['rtu', 'tcp', 'mapped', 'mapped'])
        pre = {}

        def prepare(defs):
            for d in defs:
                bits(rng, d)
                dress(rng, d)
        while True:
            v = device(rng, nmodels=rng.choice([1, 2, 3]), sized=rng.choice([None, 2, 4]), unknown=.3, repeat=.3, hook=prepare)
            if all(m[2] or m[0] not in v.defs for m in v.models):
                break
        texts(rng, v)
        o = {'t': tp}
        if tp == 'tcp' and rng.random() < .2:
            del o['t']
        if rng.random() < .6:
            o['a'] = rng.choice([0, 1, 2, 126, 247])
        if rng.random() < .4:
            o['T'] = rng.choice([0.5, 1.5, 3, 10.0])
        if tp == 'tcp':
            if rng.random() < .6:
                o['i'] = rng.choice(['10.0.0.7', 'inverter.local', '192.168.1.2'])
            if rng.random() < .4:
                o['P'] = rng.choice([5020, 1502, 503])
        elif tp == 'rtu':
            if rng.random() < .6:
                o['p'] = rng.choice(['/dev/ttyS1', 'COM3', '/dev/fake9'])
            if rng.random() < .4:
                o['b'] = rng.choice([19200, 115200, 1200])
        s = {'id': 'rp%d' % n, 'options': o, 'reach': True, 'cfg': {'defs': list(v.defs.values()), 'segs': None}}
        k = rng.random()
        if k < .06:
            while v.words[-1] in (0, 65535) and len(v.words) > 2:
                v.words.pop()
        elif k < .12:
            v.words[rng.randrange(2)] ^= 1 << rng.randrange(16)
        elif k < .18:
            if tp == 'mapped':
                s['map'] = rng.choice(['absent', '', '<mbmap>', '<other/>', '<mbmap addr="x"><regs offset="0" len="1" type="u16">1</regs></mbmap>',
                                       '<mbmap addr="40000"><regs offset="0" len="1" type="u99">1</regs></mbmap>'])
            else:
                f = rng.choice([{'conn': rng.choice(['refuse', 'timeout', 'unreach', 'gai'])}, {'then': {'base': 'none'}}, {'then': {'base': 'exc', 'code': 2}},
                                {'then': {'base': 'none', 'end': 'reset'}}, {'then': {'ops': [['trunc', 3]]}}])
                if tp == 'rtu' and f.get('then', {}).get('end'):
                    f = {'then': {'base': 'none'}}
                s['plan'] = f
            s['reach'] = False
        elif k < .3 and tp != 'mapped':
            s['cut'] = rng.random()
            s['then'] = rng.choice([{'base': 'none'}, {'base': 'exc', 'code': 4}, {'ops': [['trunc', 4]]},
                                    {'sendfail': 'serial'} if tp == 'rtu' else {'sendfail': 'reset'}])
        elif k > .98:
            o['t'] = rng.choice(['serial', 'TCP', ''])
        s['cfg']['segs'] = v.segs([{'a': x, 'w': [1, 2, 3, 4]} for x in (0, 40000, 50000) if x < v.base and rng.random() < .5 and
                                   not (v.base <= x < v.base + len(v.words))])
        out.append(s)
    return out


def many(rng, count):
    """models with hundreds of blocks, devices with hundreds of models"""
    out = []
    for n in range(count):
        mid, other = ids(rng, 2)
        d, d2 = tiny(mid, 'row', 1, rng.choice([1, 3])), definition(rng, other, size=2, rep=False)
        for x in (d, d2):
            bits(rng, x)
            dress(rng, x)
        if not d2['fl']:
            d2 = tiny(other, 'other')
        v = Dev(rng, [d, d2], rng.choice([0, 40000]))
        if n % 2 == 0:
            v.add(mid, n=rng.choice([101, 130, 260]))
        else:
            for k in range(rng.choice([101, 130])):
                v.add(rng.choice([mid, other]), n=0)
        v.end()
        texts(rng, v)
        out.append({'id': 'rm%d' % n, 'options': {'t': 'mapped'}, 'reach': True, 'cfg': {'defs': [d, d2], 'segs': v.segs()}})
    return out


def props_of(clause, trace, at, scenario):
    return {'C24'}


def main(run):
    rng = random.Random(run.seed * 7919 + 24)
    run.mc('MCReport', dict(Mut='ok'), ['NoViolation'], label='report writer, every small device image')
    run.mcs([(('MCReport', dict(Mut=m), ['NoViolation'], 'report, design error ' + m, ['NoViolation']), {})
             for m in ('reverse', 'unscaled', 'decimal', 'index', 'nolabel', 'all', 'zero', 'nounits', 'fixedonly', 'unknown', 'twice',
                       'port', 'unit', 'status', 'silent')])
    run.conform('reportdrv', scenarios(rng, 12000 if run.thorough else 1500) + many(rng, 20 if run.thorough else 4), 'ReportTrace', props_of, procs=6)
    run.assumptions += ['texts of the device are printable ASCII; bitfields have no scale factor']
