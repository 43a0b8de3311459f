"""C22: where files come from."""
import json
import random

# place -> path under the scratch root
PLACES = {'d1': 'd1', 'd2': 'd2', 'nest': 'd1/nest', 'z1': 'z1.zip', 'z1in': 'z1.zip/inner', 'z2deep': 'sub/z2.zip/a/b', 'z2': 'sub/z2.zip',
          'z1in2': 'z1.zip/inner/more'}
MISSING = {'no': 'none', 'nozip': 'none.zip', 'nozin': 'none.zip/inner', 'z1none': 'z1.zip/nothing', 'nodeep': 'd1/none/at/all'}
RAW = ['f.bin', 'g.txt', 'sub/f.bin', 'f']
IDS = [1, 2, 101, 64001, 10, 9999, 10000]


ZIPS = ['z1.zip', 'sub/z2.zip']


def places(rng):
    """the places under other names"""
    z1, z2 = rng.choice(['z1.zip', 'm.zip', '1.zip', 'a.b.zip', 'my maps.zip', 'zip.zip', 'MAPS.zip', '\u00e4.zip']), rng.choice(['sub/z2.zip', 'sub/z.zip', 'sub/smdx-1.0.zip'])
    d1 = rng.choice(['d1', 'd', 'd.1', 'dir one', 'zip', 'maps.zipped', '\u00e4'])
    deep = rng.choice(['a/b', 'a/b/c/d', 'a.b/c', 'a'])
    inner = rng.choice(['inner', 'i', 'in.ner'])
    return {'d1': d1, 'd2': 'd2', 'nest': d1 + '/nest', 'z1': z1, 'z1in': z1 + '/' + inner, 'z2deep': z2 + '/' + deep, 'z2': z2,
            'z1in2': z1 + '/' + inner + '/more'}, [z1, z2]


def spell(rng, place, under=PLACES):
    p = under.get(place) or MISSING[place]
    q = rng.choice(['{R}/' + p, '{R}/' + p, '../' + p, '../d2/../' + p if rng.random() < .3 else '../' + p])
    if rng.random() < .2:
        q += '/'
    if rng.random() < .1 and '.zip' not in q:
        q = q.replace('/', '//')
    return q


def entries(rng, n, under=PLACES):
    at = [rng.choice(list(PLACES) * 2 + list(MISSING)) for _ in range(n)]
    return {'at': at, 'p': [spell(rng, a, under) for a in at]}


def smdx(i):
    return 'smdx_%05d.xml' % i


def scenarios(rng, count):
    out = []
    for n in range(count):
        under, zips = places(rng) if rng.random() < .6 else (PLACES, ZIPS)
        names = rng.sample(RAW, 2) + [smdx(i) for i in rng.sample(IDS, 2)] + ['p.xml', 'm.xml']
        files = []
        named = []
        for at in list(PLACES) + ['local', 'default']:
            for name in names:
                if n % 4 == 0 and name != 'f' and rng.random() < .15:
                    named.append({'at': at, 'name': name})
                    continue
                if rng.random() < .35:
                    # 99: an empty file
                    files.append({'at': at, 'name': name, 'c': 99 if name in RAW and rng.random() < .15 else len(files) + 1})
        ops = []
        lists = 0
        depth = 0
        for _ in range(rng.choice([8, 14, 25])):
            k = rng.choice(['list', 'add', 'assign', 'enter', 'leave', 'read', 'read', 'model', 'model', 'model', 'pics', 'pics', 'map', 'addin'])
            if k == 'list' and lists < 6:
                ops.append(dict(entries(rng, rng.choice([0, 1, 2, 3, 5]), under), op='list', how=rng.choice(['init', 'add'])))
                lists += 1
            elif k in ('add', 'addin'):
                e = entries(rng, 1, under)
                ops.append({'op': 'add', 'l': 0 if k == 'addin' else rng.randrange(lists + 1), 'at': e['at'][0], 'p': e['p']})
            elif k == 'assign':
                ops.append({'op': 'assign', 'l': rng.randrange(lists + 1)})
            elif k == 'enter':
                ops.append(dict(entries(rng, rng.choice([0, 1, 1, 2, 3]), under), op='enter', how=rng.choice(['str', 'path'])))
                lists += 1
                depth += 1
            elif k == 'leave' and depth:
                depth -= 1
                ops.append({'op': 'leave', 'exc': rng.random() < .4})
                if rng.random() < .4:
                    e = entries(rng, 1, under)
                    ops.append({'op': 'add', 'l': 0, 'at': e['at'][0], 'p': e['p']})
                    for x in names:
                        if x.startswith('smdx'):
                            ops.append({'op': 'model', 'id': int(x[5:10]), 'name': x})
            elif k == 'read' and lists:
                ops.append({'op': 'read', 'l': rng.randrange(lists) + 1, 'name': rng.choice(names + ['missing.txt'])})
            elif k == 'model':
                i = rng.choice([int(x[5:10]) for x in names if x.startswith('smdx')] + [77])
                ops.append({'op': 'model', 'id': i, 'name': smdx(i), 'text': rng.random() < .2})
            elif k in ('pics', 'map'):
                ops.append({'op': k, 'l': rng.randrange(lists + 1), 'name': ('p' if k == 'pics' else 'm') + rng.choice(['.xml', '.xml', '.xml', '9.xml'])})
        for _ in range(3):
            ops.append({'op': 'file', 'id': rng.choice([rng.randrange(65536), rng.randrange(2000), 0, 1, 9, 10, 99, 100, 999, 1000, 9999, 10000, 65535]),
                        'text': rng.random() < .2})
        for x in rng.sample(['smdx_abc.xml', 'smdx_00001.txt', 'model_00001.xml', 'smdx.xml', '', 'smdx_.xml', 'SMDX_00001.xml', 'xsmdx_00001.xml',
                             '00001.xml', 'smdx_00001a.xml', 'smdx_00001_old.xml', 'smdx_0000l.xml', 'smdx_00001.xml.xml', 'smdx-00001.xml',
                             'smdx_00001 (copy).xml', 'smdx_00001.XML', 'smdx_00001xml', 'smdx_1.5.xml', 'smdx_a0001.xml'], 3):
            ops.append({'op': 'nofile', 'name': x})
        out.append({'id': 'pl%d' % n, 'cfg': {'files': files}, 'places': under, 'zips': zips,
                    'deflate': rng.random() < .5, 'dirs': rng.random() < .5, 'named': named, 'ops': ops})
    return out


def from_script(rng, n, script):
    kind = rng.choice(['model', 'pics', 'map'])
    place = {'d1': 'd1', 'd2': 'd2', 'z': rng.choice(['z1', 'z1in', 'z2deep']), 'no': rng.choice(list(MISSING)), 'local': 'local', 'default': 'default'}
    files = []
    for at, name, c in [('d1', 'a', 1), ('d2', 'a', 2), ('d2', 'b', 3), ('z', 'b', 4), ('local', 'a', 6), ('default', 'b', 7)]:
        for x in ('f' + name, 'p' + name, smdx(101 if name == 'a' else 102)):
            files.append({'at': place[at], 'name': x, 'c': c})
    ops = []
    for o in script:
        o = dict(o)
        if 'at' in o:
            at = [place[x] for x in ([o['at']] if isinstance(o['at'], str) else o['at'])]
            o['p'] = [spell(rng, x) for x in at]
            o['at'] = at[0] if isinstance(o['at'], str) else at
        if o['op'] == 'model':
            o['id'] = 101 if o['name'] == 'a' else 102
            o['name'] = smdx(o['id'])
        elif 'name' in o:
            o['name'] = ('p' if o['op'] == 'pics' else 'f') + o['name']
        ops.append(o)
    return {'id': 'mp%d' % n, 'cfg': {'files': files}, 'places': PLACES, 'zips': ZIPS, 'ops': ops}


def props_of(clause, trace, at, scenario):
    return None if clause.startswith('harness') else {'C22'}


VIEW = dict(extra='VIEW View')


def main(run):
    big = run.thorough
    rng = random.Random(run.seed * 7919 + 22)
    base = dict(Ops=6 if big else 5, Deep=3, Mut='none', Record=False)
    run.mc('MCPaths', base, ['NoViolation', 'InStep'], label='path lists, %d operations' % base['Ops'], timeout=1500, **VIEW)
    run.mcs([(('MCPaths', dict(base, Ops=5, Mut=m), ['NoViolation'], 'path lists, design error ' + m, ['NoViolation']), VIEW)
             for m in ('reverse', 'stop', 'zipends', 'shared', 'front', 'noexc', 'drop', 'outer', 'cache', 'defaults', 'active')])
    r = run.mc('MCPaths', dict(base, Ops=14, Record=True), ['NoViolation', 'PrintScripts'], label='path lists, behaviours', depth=20,
               simulate=4000 if big else 400, seed=run.seed, workers=1)
    prints = sorted({p for p in r.prints if p.startswith('SCRIPT ')})
    prints = rng.sample(prints, min(len(prints), 15000 if big else 2000))
    sc = [from_script(rng, n, json.loads(p[7:])) for n, p in enumerate(prints)]
    run.notes['model_behaviours_replayed'] = len(sc)
    sc += scenarios(rng, 6000 if big else 1000)
    # every model id
    for b in range(0, 65536, 4096 if big else 8192):
        step = 1 if big else 7
        sc.append({'id': 'ids%d' % b, 'cfg': {'files': []}, 'places': {}, 'ops': [{'op': 'file', 'id': i} for i in range(b, b + (4096 if big else 8192), step)]})
    run.conform('pathsdrv', sc, 'PathsTrace', props_of, procs=6)
    run.assumptions += ['at most one zip file in a path list entry, no directory with a name ending in .zip, no empty entry (documented)',
                        'no empty definition or PICS files']
