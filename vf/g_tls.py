"""C26: Modbus/TCP Security."""
import json
import random

INV = ['NoViolation']


def cfg_of(rng, c, calls):
    """a configuration of the model with what it leaves open"""
    waits = c['srv'] == 'mute' and c['tls'] or any(x.get('plan') == 'silent' for x in calls) or c['srv'] == 'mute'
    return dict(c, ver=rng.choice([12, 13]), tickets=rng.choice([0, 2]), fill=rng.randrange(60000), loud=rng.random() < .7, to=2 if waits else 400)


def gen_cfg(rng):
    k = rng.random()
    tls = rng.random() < .85
    c = {'tls': tls, 'ca': 'site', 'sysca': rng.choice(['~', 'site', 'other']), 'mine': 'alice', 'skip': False,
         'srv': 'tls' if tls else 'plain', 'cert': 'good', 'mutual': rng.random() < .7, 'via': rng.choice(['modbus', 'client', 'sunspec'])}
    if k < .45:
        # one thing is different
        f = rng.choice(['ca', 'mine', 'srv', 'cert', 'cert', 'cert'])
        c[f] = rng.choice({'ca': ['~', 'other'], 'mine': ['mallory', 'missing', 'mixed'], 'srv': ['tls', 'plain', 'mute', 'drop', 'refuse'],
                           'cert': ['name', 'expired', 'future', 'usage', 'foreign', 'ss']}[f])
        c['skip'] = rng.random() < .2
    elif k < .8:
        c['ca'] = rng.choice(['~', 'site', 'other'])
        c['mine'] = rng.choice(['alice', 'alice', 'alice', 'mallory'])
        c['skip'] = rng.random() < .35
        c['cert'] = rng.choice(['good', 'good', 'name', 'expired', 'future', 'usage', 'foreign', 'ss'])
    return c


def gen_calls(rng, via):
    if via == 'sunspec':
        return [{'op': 'scan', 'plan': rng.choice(['ok', 'ok', 'ok', 'frag', 'exc', 'close', 'silent'])}]
    calls = []
    for _ in range(rng.randrange(1, 6)):
        op = rng.choice(['read', 'read', 'read', 'write', 'connect', 'close'])
        if op == 'connect' and via == 'client':
            op = 'read'
        c = {'op': op, 'addr': rng.choice([40000, 0, rng.randrange(65000)]), 'plan': 'ok' if rng.random() < .6 else
             rng.choice(['ok', 'frag', 'exc', 'close', 'cut', 'silent'])}
        if op == 'read':
            c['cnt'] = rng.choice([1, 2, 125, rng.randrange(1, 126)])
        if op == 'write':
            c['data'] = [rng.randrange(256) for _ in range(2 * rng.choice([1, 2, rng.randrange(1, 124)]))]
        calls.append(c)
    return calls


def scenarios(rng, count):
    out = []
    for n in range(count):
        c = gen_cfg(rng)
        calls = gen_calls(rng, c['via'])
        out.append({'id': 'tg%d' % n, 'cfg': cfg_of(rng, c, calls), 'calls': calls})
    return out


def props_of(clause, trace, at, scenario):
    if clause.startswith('harness.'):
        return None
    return {'C26'}


def main(run):
    rng = random.Random(run.seed * 7919 + 26)
    big = run.thorough
    base = dict(Depth=4 if big else 3, Mut='none', Record=False)
    jobs = [(('MCTls', base, INV), dict(label='connections, %d calls' % base['Depth']))]
    for mut in ('noverify', 'noname', 'notime', 'fallback', 'nocert', 'early', 'alsosystem', 'leak', 'always', 'hello'):
        jobs.append((('MCTls', dict(base, Depth=2, Mut=mut), INV),
                     dict(label='connections, design error ' + mut, killed_by=['NoViolation'])))
    run.mcs(jobs)
    r = run.mc('MCTls', dict(base, Depth=1, Record=True), ['PrintScripts'], label='configurations', workers=1)
    scripts = sorted(p[7:] for p in r.prints if p.startswith('SCRIPT '))
    if not big:
        rng.shuffle(scripts)
        scripts = scripts[:1200]
    sc = []
    for p in scripts:
        x = json.loads(p)
        calls = x['calls']
        if x['cfg']['via'] != 'sunspec':
            calls = [dict(c, addr=40000 - 2 + i) for i, c in enumerate(calls)]
        sc.append({'id': 'tm%d' % len(sc), 'cfg': cfg_of(rng, x['cfg'], calls), 'calls': calls})
    run.notes['model_behaviours_replayed'] = len(sc)
    sc += scenarios(rng, 6000 if big else 900)
    run.conform('tlsdrv', sc, 'TlsTrace', props_of)
    run.assumptions.append('the TLS implementation of Python (OpenSSL) on the server side; certificates made beforehand')
