"""C23: SunSpec data records."""
import random
import sys
import os

from vf.g_smdx import elem, ints_of, nodes

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sut'))
from values import val  # noqa: E402

TEXTS = ['mac', '0040AD9923AA', '11:22:33:44:55:66', 'Acme & Sons', 'A<B>', '"q"', "x'y", 'Stra\u00dfe', '\u0394', 'a b', '1', '0', '-', ' a ', '  x', 'y ', 'a\nb', 'a  b', '\tz\t', 'True', 'None']


def opt(rng, f, p=.5):
    return [f()] if rng.random() < p else []


def value(rng):
    k = rng.choice('iiifs')
    if k == 'i':
        n = rng.choice([0, 1, -1, 65535, -32768, 2 ** 32 - 1, 2 ** 63, rng.randrange(-10 ** 6, 10 ** 6)])
        return {'k': 'i', 'text': str(n), 'n': {}}
    if k == 'f':
        x = rng.choice([0.1, 1.5, -2.25, 1e-7, 1e22, 12345.678, 0.0, rng.random() * 1000])
        return {'k': 'f', 'text': repr(x), 'n': val(x)}
    if rng.random() < .1:
        b = rng.random() < .5
        return {'k': 'b', 'text': str(b), 'n': {}}
    return {'k': 's', 'text': rng.choice(TEXTS), 'n': {}}


def built_point(rng):
    return {'id': rng.choice(['A', 'PhVphA', 'WH', 'Evt1', 'W_SF']), 'x': opt(rng, lambda: rng.choice([1, 2, 3, 15]), .3),
            'sf': opt(rng, lambda: rng.choice([0, -1, 1, -3, 10]), .4), 't': opt(rng, lambda: '2011-05-12T09:20:50Z', .2),
            'val': opt(rng, lambda: value(rng), .9)}


def built(rng):
    def model():
        return {'id': str(rng.choice([1, 101, 103, 64001])), 'how': rng.choice(['int', 'text']), 'ns': opt(rng, lambda: rng.choice(TEXTS), .3),
                'x': opt(rng, lambda: rng.choice([1, 2, 3]), .4), 'pts': [built_point(rng) for _ in range(rng.choice([0, 1, 2, 3, 6]))]}

    def dev():
        d = {k: opt(rng, lambda: rng.choice(TEXTS)) for k in ('lid', 'ns', 'id', 'if', 'man', 'mod', 'sn', 'cid')}
        d['t'] = opt(rng, lambda: rng.choice([1, 86399, 951782399, 951782400, 1709251199, 1305191250, 2 ** 31 - 1, 1078012800, 4102358400 % 2 ** 31,
                                              rng.randrange(1, 2 ** 31), rng.randrange(1, 2 ** 31)]), .6)
        d['how'] = rng.choice(['given', 'given', 'add', 'now', 'frac'])
        d['models'] = [model() for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        return d
    return {'v': opt(rng, lambda: rng.choice(['1', '2'])), 'devs': [dev() for _ in range(rng.choice([0, 1, 1, 2, 3]))]}




def document(rng):
    def attrs(names, p=.4):
        a = [(n, rng.choice(TEXTS)) for n in names if rng.random() < p]
        rng.shuffle(a)
        return a

    def pt():
        a = [('id', rng.choice(['A', 'WH', 'St']))]
        if rng.random() < .3:
            a.append(('index', str(rng.choice([1, 2, 7]))))
        if rng.random() < .4:
            a.append(('sf', str(rng.choice([0, -2, 3]))))
        if rng.random() < .2:
            a.append(('t', '2011-05-12T09:20:50Z'))
        return elem('p', a, rng.choice(['', '12', '-3.5', 'Acme & Sons', ' 12 ', 'a\n b']))

    def mod():
        a = [('id', str(rng.choice([1, 101, 64001])))]
        if rng.random() < .3:
            a.append(('x', str(rng.choice([1, 2, 3]))))
        if rng.random() < .3:
            a.append(('ns', 'x'))
        return elem('m', a, '', [pt() for _ in range(rng.choice([0, 1, 3]))])

    def dev():
        return elem('d', attrs(['lid', 'ns', 'id', 'if', 'man', 'mod', 'sn', 'cid', 't']), '', [mod() for _ in range(rng.choice([0, 1, 2]))])
    doc = elem('sunSpecData', attrs(['v']), '', [dev() for _ in range(rng.choice([0, 1, 2, 3]))])
    if rng.random() < .5:
        k = rng.choice(['root', 'tag', 'add', 'add'])
        if k == 'root':
            doc['g'] = rng.choice(['sunspecdata', 'sunSpecModels', 'd', 'data'])
        else:
            where = [e for e in nodes(doc) if e['g'] != 'p']
            e = rng.choice(where)
            if k == 'tag':
                cs = [c for x in where for c in x['k']]
                if cs:
                    rng.choice(cs)['g'] = rng.choice(['x', 'device', 'd', 'm', 'p', 'model', 'point'])
            else:
                e['k'].insert(rng.randrange(len(e['k']) + 1), elem(rng.choice(['x', 'd', 'm', 'p', 'note']), [('id', '1')]))
    return doc


def many(rng):
    """hundreds of devices, of models or of points"""
    r = built(rng)
    while not r['devs'] or not r['devs'][0]['models']:
        r = built(rng)
    k = rng.choice(['dev', 'model', 'point'])
    n = rng.choice([101, 130, 260])
    if k == 'dev':
        r['devs'] = [r['devs'][i % len(r['devs'])] for i in range(n)]
    elif k == 'model':
        ms = r['devs'][0]['models']
        r['devs'][0]['models'] = [ms[i % len(ms)] for i in range(n)]
    else:
        r['devs'][0]['models'][0]['pts'] = [built_point(rng) for _ in range(n)]
    return r


def scenarios(rng, count):
    out = []
    for n in range(count):
        recs = [many(rng)] if n % 200 == 3 else [built(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
        docs = [{'doc': document(rng), 'style': rng.choice([None, 'decl', 'space', 'ascii', 'latin', 'utf16', 'bom']), 'how': rng.choice(['element', 'text'])}
                for _ in range(rng.choice([0, 1, 3]))]
        out.append({'id': 'sx%d' % n, 'recs': recs, 'tz': rng.choice(['UTC', 'EST5EDT', 'CET-1CEST', 'NZST-12NZDT']),
                    'how': [{'write': rng.choice(['str', 'str', 'pretty', 'element', 'root']), 'read': rng.choice(['element', 'text']),
                             'twice': rng.random() < .3} for _ in recs],
                    'docs': docs, 'ints': ints_of([d['doc'] for d in docs])})
    return out


def props_of(clause, trace, at, scenario):
    return {'C23'}


def main(run):
    rng = random.Random(run.seed * 7919 + 23)
    run.mc('MCSdx', dict(Mut='ok'), ['NoViolation'], label='record writer and reader, every subset of the device fields')
    run.mcs([(('MCSdx', dict(Mut=m), ['NoViolation'], 'records, design error ' + m, ['NoViolation']), {})
             for m in ('noindex', 'falsy', 'none', 'empty', 'index2', 'reverse', 'local', 'swap', 'nocid', 'lax1', 'lax2', 'lax3', 'notime', 'first')])
    run.conform('sdxdrv', scenarios(rng, 15000 if run.thorough else 2000), 'SdxTrace', props_of, procs=6)
    run.assumptions += ['point units and descriptions are not part of records (documented in the code); values contain no control characters']
