"""C21: model definitions."""
import json
import os
import random
import sys
import xml.etree.ElementTree as ET

from vf.g_sunspec import ALL, NAMES, NONE, REGS, definition, ids

sys.path.append(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sut'))
from xmltree import document  # noqa: E402

WORDS = ['Amps', 'Volts', 'DC Power', 'Phase A', 'x < y & "z"', 'Grad \u00b0C', '\u03a9 \u2126', "it's", 'a  b', '%', 'Line 1', '0', ' lead', 'trail ', 'two\nlines']


def elem(g, a=(), x='', k=()):
    return {'g': g, 'a': [list(p) for p in a], 'x': x, 'k': list(k)}


def texts(rng, some=.5):
    out = []
    for g in ('label', 'description', 'notes'):
        if rng.random() < some:
            out.append(elem(g, x=rng.choice(WORDS)))
    rng.shuffle(out)
    return out


def symbol(rng, sid, v, own=.3):
    return elem('symbol', [('id', sid)], v, texts(rng, .4) if rng.random() < own else [])


def point(rng, p, own=.2, symbols=.3):
    a = [('id', p['id']), ('offset', str(p['off'])), ('type', p['t'])]
    if p['t'] == 'string' or p.get('showlen'):
        a.append(('len', str(p['len'])))
    if p['sf']['k'] == 'const':
        a.append(('sf', str(p['sf']['v'])))
    elif p['sf']['k'] == 'pt':
        a.append(('sf', p['sf']['n']))
    for k in ('units', 'access', 'mandatory'):
        if p.get(k) is not None:
            a.append((k, p[k]))
    if rng.random() < .3:
        rng.shuffle(a)
    k = texts(rng) if rng.random() < own else []
    if rng.random() < symbols and p['t'] not in ('pad', 'sunssf'):
        for i, n in enumerate(rng.sample(['OFF', 'ON', 'A', 'NONE', 'X_1'], rng.choice([1, 2, 3]))):
            k.append(symbol(rng, n, rng.choice([str(i), str(rng.randrange(70000)), '0x%x' % i])))
    return elem('point', a, '', k)


def strings(rng, d, mid, kids):
    k = []
    if rng.random() < .7:
        k.append(elem('model', k=texts(rng, .7)))
    names = [p['id'] for p in d['fp'] + d['rp']]
    once = [n for n in names if names.count(n) == 1]
    for n in rng.sample(once, min(len(once), rng.choice([0, 1, 2, 5, 20]))) + rng.choice([[], [], ['Nowhere']]):
        sk = texts(rng, .6)
        for c in kids.get(n, []):
            if c['g'] == 'symbol' and rng.random() < .6:
                sk.append(elem('symbol', [('id', c['a'][0][1])], '', texts(rng, .7)))
        if rng.random() < .1:
            sk.append(elem('symbol', [('id', 'NoSuchSymbol')], '', texts(rng, .7)))
        k.append(elem('point', [('id', n)], '', sk))
    return elem('strings', [('id', str(mid)), ('locale', 'en')], '', k)


def tree(rng, d, **kw):
    """the document of a definition, with texts and symbols"""
    kids = {}

    def blk(a, ps):
        out = []
        for p in ps:
            e = point(rng, p, **kw)
            kids[p['id']] = e['k']
            out.append(e)
        return elem('block', a, '', out)
    bs = []
    if d['fl'] or d['fp'] or rng.random() < .8:
        bs.append(blk(rng.choice([[('len', str(d['fl']))], [('type', 'fixed'), ('len', str(d['fl']))],
                                  [('len', str(d['fl'])), ('type', 'fixed'), ('name', 'head')]]), d['fp']))
    if d['rep']:
        a = [('type', 'repeating'), ('len', str(d['rl']))]
        if d['rn'] != 'repeating':
            a.append(('name', d['rn']))
        bs.append(blk(a, d['rp']))
        if rng.random() < .1:
            bs.reverse()
    a = [('id', str(d['id'])), ('len', str(d['len']))]
    if d['name'] != 'model_%d' % d['id']:
        a.append(('name', d['name']))
    doc = elem('sunSpecModels', [('v', '1')], '', [elem('model', a, '', bs)])
    if rng.random() < .7:
        doc['k'].append(strings(rng, d, d['id'], kids))
    if rng.random() < .3:
        doc['k'].insert(rng.choice([1, len(doc['k'])]), strings(rng, d, rng.choice([d['id'] + 1, d['id'] - 1, '1%d' % d['id'], '%d0' % d['id'], str(d['id'])[:-1], str(d['id'])[1:], '', '*']), kids))
    return doc


def nodes(e):
    yield e
    for c in e['k']:
        yield from nodes(c)


def mutate(rng, doc):
    """a document that may or may not be well formed"""
    m = doc['k'][0]
    bs = [c for c in m['k'] if c['g'] == 'block']
    ps = [(b, c) for b in bs for c in b['k'] if c['g'] == 'point']
    kind = rng.choice(['drop', 'drop', 'wrong', 'wrong', 'dup', 'block', 'sym', 'num'])

    def put(e, k, v):
        e['a'] = [p for p in e['a'] if p[0] != k] + ([[k, v]] if v is not None else [])
    if kind == 'drop':
        e = rng.choice([m] + bs + [p for _, p in ps] * 2)
        put(e, rng.choice({'model': ['id', 'len', 'name'], 'block': ['len', 'type', 'name']}.get(e['g'], ['id', 'offset', 'type', 'len', 'access', 'mandatory', 'sf'])), None)
    elif kind == 'wrong' and (ps or bs):
        e = rng.choice(bs + [p for _, p in ps] * 2)
        if e['g'] == 'block':
            put(e, 'type', rng.choice(['Fixed', 'header', '', 'repeat']))
        else:
            k = rng.choice(['type', 'access', 'mandatory'])
            put(e, k, rng.choice({'type': ['int8', 'float', 'String', 'uint128', '', 'float64', 'sf'], 'access': ['w', 'RW', '', 'r/w'],
                                  'mandatory': ['True', 'yes', '', '1']}[k]))
    elif kind == 'dup' and ps:
        b, p = rng.choice(ps)
        q = json.loads(json.dumps(rng.choice([x for y, x in ps if y is b])))
        put(q, 'id', dict(p['a']).get('id'))
        b['k'].insert(rng.randrange(len(b['k']) + 1), q)
    elif kind == 'block' and bs:
        b = json.loads(json.dumps(rng.choice(bs)))
        if rng.random() < .5:
            b['k'] = []
        m['k'].insert(rng.randrange(len(m['k']) + 1), b)
    elif kind == 'sym' and ps:
        b, p = rng.choice(ps)
        p['k'].append(elem('symbol', [], '1'))
    elif kind == 'num' and ps:
        b, p = rng.choice(ps)
        put(p, rng.choice(['offset', 'len']), rng.choice(['', 'x', '1.5', '1,2']))
    return doc


def ints_of(docs):
    out = {}
    for d in docs:
        for e in nodes(d):
            for k, v in e['a']:
                if k in ('id', 'len', 'offset', 'addr', 'index', 'sf', 'x') and v.lstrip('-').isdigit() and v.isascii():
                    out[v] = int(v)
    return sorted([k, v] for k, v in out.items())


def same_ids(rng, mid):
    """the same point and symbol ids in both blocks, with other values"""
    d = definition(rng, mid, rep=True, size=2)
    for p, q in zip(d['fp'], d['rp']):
        if p['t'] != 'sunssf' and q['t'] != 'sunssf' and not any(x['id'] == p['id'] for x in d['rp']):
            q['id'] = p['id']
    return d


def broken(rng, doc):
    """a text that is not well-formed XML"""
    good = document(doc, rng.choice([None, 'decl', 'space'])).decode()
    while True:
        k = rng.choice(['cut', 'cut', 'tag', 'amp', 'quote', 'roots', 'junk'])
        i = rng.randrange(len(good))
        s = {'cut': good[:i], 'tag': good.replace('</block>', '</blok>', 1), 'amp': good[:i] + '&' + good[i:], 'quote': good.replace('"', '', 1),
             'roots': good + good, 'junk': rng.choice(['not a document', '<', '{}', ' ', '<sunSpecModels>', ''])}[k]
        try:
            ET.fromstring(s)
        except (ET.ParseError, ValueError):
            return s


def scenarios(rng, count):
    out = []
    for n in range(count):
        docs = []
        for mid in ids(rng, rng.choice([2, 3, 4])):
            d = same_ids(rng, mid) if rng.random() < .15 else \
                definition(rng, mid, name=rng.choice([None, 'inverter', 'm%d' % mid]), types=rng.choice([None, ALL + ['pad']]))
            for p in d['fp'] + d['rp']:
                if rng.random() < .1:
                    p['units'] = rng.choice(['', 'A', 'Pct', '\u00b0C', 'W/m2'])
                if rng.random() < .1 and p['t'] not in ('string', 'pad', 'sunssf'):
                    p['showlen'] = True
            if n % 150 == 3 and not docs:
                # hundreds of points
                k = rng.choice([101, 130, 260])
                d = dict(d, fl=k, fp=[{'id': 'P%d' % i, 'off': i, 't': rng.choice(['uint16', 'int16', 'enum16']), 'len': 1, 'sf': NONE}
                                      for i in range(k)], rep=False, rl=0, rp=[], len=k)
            doc = tree(rng, d)
            if n % 150 == 7 and not docs:
                # hundreds of symbols
                for e in nodes(doc):
                    if e['g'] == 'point' and ['type', 'uint16'] in e['a']:
                        e['k'] += [symbol(rng, 'S%d' % i, str(i), .02) for i in range(rng.choice([101, 260]))]
                        break
            if rng.random() < .45:
                doc = mutate(rng, doc)
            docs.append({'id': mid, 'doc': doc, 'style': rng.choice([None, 'decl', 'space', 'ascii', 'latin', 'utf16', 'bom'])})
            if rng.random() < .06:
                docs[-1]['broken'] = broken(rng, doc)
        order = list(range(1, len(docs) + 1)) + [rng.randrange(len(docs)) + 1 for _ in range(rng.choice([0, 1, 2]))]
        rng.shuffle(order)
        out.append({'id': 'sm%d' % n, 'cfg': {'docs': docs, 'ints': ints_of([d['doc'] for d in docs])},
                    'where': rng.choice(['list', 'list', 'local', 'default']),
                    'ops': [{'n': i, 'fresh': rng.random() < .3} for i in order]})
    return out


def props_of(clause, trace, at, scenario):
    return {'C21'}


def main(run):
    big = run.thorough
    rng = random.Random(run.seed * 7919 + 21)
    base = dict(Big=True, Mut='none', Record=False)
    run.mc('MCSmdx', base, ['AsWritten'], label='definition loader, all small documents')
    run.mcs([(('MCSmdx', dict(base, Big=False, Mut=m), ['AsWritten'], 'definition loader, design error ' + m, ['AsWritten']), {})
             for m in ('anyid', 'nolen', 'dupblock', 'sharesym', 'lenignored', 'mandatory', 'duppoint', 'erase', 'fixedonly')])
    r = run.mc('MCSmdx', dict(base, Record=True), ['AsWritten', 'PrintDocs'], label='definition loader, documents', depth=40,
               simulate=20000 if big else 2000, seed=run.seed, workers=1)
    docs = sorted({p[7:] for p in r.prints if p.startswith('SCRIPT ')})
    sc = []
    for n in range(0, len(docs), 5):
        part = [json.loads(x) for x in docs[n:n + 5]]
        for i, d in enumerate(part):
            for e in nodes(d):       # one file per document
                e['a'] = [[k, str(64001 + i) if v == '64001' else v] for k, v in e['a']]
        sc.append({'id': 'md%d' % n, 'cfg': {'docs': [{'id': 64001 + i, 'doc': d} for i, d in enumerate(part)], 'ints': ints_of(part)},
                   'ops': [{'n': i + 1} for i in range(len(part))]})
    run.notes['model_documents_loaded'] = len(docs)
    sc += scenarios(rng, 12000 if big else 1500)
    for i in range(0, len(sc), 3000):
        run.conform('smdxdrv', sc[i:i + 3000], 'SmdxTrace', props_of, procs=6)
    run.assumptions += ['a definition document has one model with the id it is stored under, and one strings section per model']
