"""C27: printing devices, models and repeating blocks."""
import random

from vf import g_sunspec
from vf.g_report import texts
from vf.g_sunspec import Dev, assigned, change, definition, fault, ident, ids, scenario, tiny


def scenarios(rng, count):
    out = []
    n = 0
    while n < count:
        via = rng.choice(['rtu', 'tcp', 'mapped'])
        mids = ids(rng, rng.choice([1, 1, 2, 3]))
        defs = [definition(rng, i, name=rng.choice([None, 'inverter', 'inverter', 'm%d' % i, ident(rng), 'Inverter']),
                           size=rng.choice([0, 1, 2, 4, 8])) for i in mids]
        v = Dev(rng, defs, rng.choice(g_sunspec.BASES))
        order = mids + [rng.choice(mids) for _ in range(rng.choice([0, 0, 1, 2]))] + rng.choice([[], [], [4242], [4242, 4242], [7]])
        rng.shuffle(order)
        for mid in order:
            v.add(mid, n=rng.choice([0, 1, 1, 2, 3, 12]))
        v.end()
        if any(m[0] in v.defs and not m[2] for m in v.models):
            continue
        texts(rng, v)
        refs = v.refs()
        segs = [{'a': v.base, 'w': list(v.words)}]

        def show():
            if rng.random() < .5:
                return {'op': 'show', 'how': 'device'}
            m = rng.randrange(len(v.models))
            return {'op': 'show', 'how': 'one', 'm': m + 1, 'b': 1 + rng.choice([0, 0, rng.randrange(max(1, len(v.models[m][3])))])}
        ops = [{'op': 'scan', 'wrap': True}]
        if rng.random() < .3:
            ops.append(show())
        for _ in range(rng.choice([1, 2, 3])):
            o = {'op': 'read', 'ms': [rng.randrange(len(v.models)) + 1], 'how': rng.choice(['device', 'device', 'model', 'wrap'])}
            plan = {}
            if via != 'mapped' and rng.random() < .25:
                plan = fault(rng, via, rng.choice([0, 1, 2]))
            c = []
            if not plan and rng.random() < .4:
                c = [x for x in (change(rng, v, 0) for _ in range(rng.choice([1, 3, 8]))) if x]
                # texts stay printable
                c = [x for x in c if not any(p['t'] == 'string' and a == x['a'] for m in v.models for b in m[3] for p, a in b)]
                plan['chg'] = c
            if plan:
                o['plan'] = plan
            ops.append(o)
            for x in c:
                v.words[x['a'] - v.base:x['a'] - v.base + len(x['w'])] = x['w']
            if rng.random() < .6:
                ops.append(show())
            if not plan.get('replies') and not plan.get('conn') and o['how'] == 'device':
                for r in rng.sample(refs, min(len(refs), rng.choice([0, 0, 1, 3]))):
                    p = v.models[r[0]][3][r[1]][r[2]][0]
                    ops.append({'op': 'set', 'm': r[0] + 1, 'b': r[1] + 1, 'p': r[2] + 1, 'v': assigned(rng, p, v.scale(r[0], r[1], p)),
                                'how': rng.choice(['value', 'attr', 'item'])})
                if rng.random() < .5:
                    ops.append(show())
        ops.append({'op': 'show', 'how': 'device'})
        s = scenario('pr%d' % n, via, defs, segs, ops)
        s['cfg']['codes'] = True
        out.append(s)
        n += 1
    return out


def many(rng, count):
    """a model with hundreds of blocks; dozens of instances of a model"""
    out = []
    for n in range(count):
        mid, other = ids(rng, 2)
        d, d2 = tiny(mid, rng.choice(['row', 'model_%d' % mid]), 1, rng.choice([1, 3])), tiny(other, 'other', 1, 1)
        v = Dev(rng, [d, d2], rng.choice([0, 40000]))
        for k in range(1 if n % 2 == 0 else rng.choice([12, 101])):
            v.add(rng.choice([mid, other]), n=0)
        v.add(mid, n=rng.choice([101, 130]) if n % 2 == 0 else 1)
        v.end()
        at = len(v.models)
        ops = [{'op': 'scan', 'wrap': True}] + [{'op': 'read', 'ms': [i + 1], 'how': 'device'} for i in (0, 10, at - 1) if i < at]
        ops += [{'op': 'show', 'how': 'one', 'm': at, 'b': b} for b in (1, 10, len(v.models[-1][3]))]
        ops += [{'op': 'show', 'how': 'device'}]
        s = scenario('pm%d' % n, 'mapped', [d, d2], v.segs(), ops)
        s['cfg']['codes'] = True
        out.append(s)
    return out


def main(run):
    rng = random.Random(run.seed * 7919 + 27)
    run.mc('MCShow', dict(Mut='ok'), ['NoViolation'], label='printer, every small device image')
    run.mcs([(('MCShow', dict(Mut=m), ['NoViolation'], 'printer, design error ' + m, ['NoViolation']), {})
             for m in ('all', 'falsy', 'first', 'unsorted', 'index', 'fixedonly', 'unscaled', 'device', 'trim')])
    run.conform('sunspecdrv', scenarios(rng, 6000 if run.thorough else 700) + many(rng, 20 if run.thorough else 4), 'SunSpecTrace', g_sunspec.props_of, procs=6)
    run.assumptions += ['texts of the device are printable ASCII', 'names do not collide with attributes of the library']
