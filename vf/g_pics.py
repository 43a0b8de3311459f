"""C19, C20: PICS documents and device comparison."""
import json
import os
import random
import sys

from vf import g_smdx
from vf.g_smdx import WORDS, elem, ints_of, nodes, tree
from vf.g_sunspec import INTS, REGS, SIGNED, Dev, assigned, common, definition, ids, tiny, words

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sut'))
from values import literal, val  # noqa: E402

VALUE = {'t': 'i', 's': 0, 'd': [], 'e': 0, 'c': [], 'form': 'int'}


def copy(x):
    return json.loads(json.dumps(x))


def integer(n):
    d = [int(c) for c in str(abs(n)).rstrip('0')]
    return dict(VALUE, s=int(n < 0), d=d, e=len(str(abs(n))) - len(d) if n else 0)


def sentinel(t, n):
    bits = 16 * REGS[t]
    return n == (-(1 << bits - 1) if t in SIGNED else 0 if t in ('acc16', 'acc32', 'acc64', 'ipaddr') else (1 << bits) - 1)


def value(rng, t, ln):
    """a value a point may hold, or None"""
    k = rng.random()
    if k < .2:
        return None
    if t == 'sunssf':
        return integer(rng.choice([0, 1, 2, -1, -2, -3, 10, -10, -32768 if k < .25 else 0]))
    if t == 'string':
        c = [rng.choice([65, 98, 48, 32, 60, 38, 34, 228, 255, 126]) for _ in range(rng.choice([1, 2, 2 * ln, rng.randrange(1, 2 * ln + 1)]))]
        return dict(VALUE, t='s', c=c)
    if t in INTS:
        v = assigned(rng, {'t': t, 'len': ln}, None)
        if k < .3:
            bits = 16 * ln
            return integer(-(1 << bits - 1) if t in SIGNED else 0 if t in ('acc16', 'acc32', 'acc64', 'ipaddr') else (1 << bits) - 1)
        return dict(v, form='int')
    v = assigned(rng, {'t': t, 'len': ln}, None)
    if t in ('eui48', 'ipv6addr') and not set(v['c']) - {48, 58}:
        return None
    if t == 'eui48' and k < .3:
        return dict(VALUE, t='s', c=[ord(x) for x in 'FF:FF:FF:FF:FF:FF'])
    return v


def beside(rng, v, p):
    """another value of the point, close to v"""
    if v is None:
        return value(rng, p['t'], p['len'])
    if v['t'] == 'f':
        if not v['c']:
            return dict(v, c=[1, rng.choice([-100, -30, -10])])
        m, k = v['c']
        return dict(v, c=rng.choice([[m + 2, k]] * 3 + [[2 * m + 1, k - 1], [m, k - 1], [1, -140], v['c']])) if m < 2 ** 23 else dict(v, c=[m - 2, k])
    if v['t'] == 's':
        if p['t'] != 'string' or not v['c']:
            return value(rng, p['t'], p['len'])
        c = list(v['c'])
        i = rng.randrange(len(c))
        ch = chr(c[i])
        c[i] = ord(rng.choice([ch.swapcase(), ' ', chr(c[i] ^ 1)])) if ord(ch) < 128 else 65
        return dict(v, c=c if c[i] >= 32 else v['c'])
    n = literal(dict(v, form='int'))
    if p['t'] == 'sunssf':
        return integer(n + 1 if n < 9 else n - 1)
    top = 256 ** (2 * p['len'])
    lo, hi = (-(top // 2), top // 2 - 1) if p['t'] in SIGNED else (0, top - 1)
    return integer(max(lo, min(hi, rng.choice([n + 1, n - 1, -n, n ^ 1, n ^ 0x8000, n // 10]))))


def text_of(rng, t, ln):
    """a text for a point of a PICS document"""
    v = value(rng, t, ln)
    if v is None:
        return ''
    x = literal(v)
    if isinstance(x, int) and rng.random() < .2:
        return ('-' if x < 0 else '') + '0x%x' % abs(x)
    return str(x)


def split(d):
    return ([p for p in d['fp'] if p['t'] not in ('pad', 'sunssf')], [p for p in d['fp'] if p['t'] == 'sunssf']), \
        ([p for p in d['rp'] if p['t'] not in ('pad', 'sunssf')], [p for p in d['rp'] if p['t'] == 'sunssf'])


class World(object):
    """definitions in two or three versions, and chains of models"""

    def __init__(self, rng, big=None):
        self.rng = rng
        self.big = big
        self.defs = [definition(rng, i, name=rng.choice([None, 'inverter'])) for i in ids(rng, rng.choice([1, 1, 2, 3]))]
        if big:
            a, b = ids(rng, 2)
            self.defs = [tiny(a, 'row', 1, rng.choice([1, 3])), tiny(b, 'other')]
        elif rng.random() < .2:
            self.defs.append(common(rng))
        self.by = {d['id']: d for d in self.defs}
        one = [{'id': d['id'], 'doc': tree(rng, d)} for d in self.defs]
        two = copy(one)
        self.altered = rng.random() < .5
        if self.altered:
            x = rng.choice(two)
            alter(rng, x['doc'])
            self.other = x['id']
        elif rng.random() < .2 and len(two) > 1:
            two.pop(rng.randrange(len(two)))
        for x in one + two:
            x['style'] = rng.choice([None, 'decl', 'space', 'ascii', 'latin', 'utf16', 'bom'])
        self.sets = [one, two]

    def chain(self):
        """models of a device: id, length, number of repeating blocks"""
        rng = self.rng
        out = []
        if self.big == 'blocks':
            # hundreds of blocks
            d, n = self.defs[0], rng.choice([101, 130, 257])
            return [{'id': d['id'], 'len': d['fl'] + n * d['rl'], 'n': n}]
        for _ in range(rng.choice([101, 130]) if self.big else rng.choice([0, 1, 1, 2, 3])):
            if rng.random() < .15:
                out.append({'id': rng.choice([7, 4242, 64999]), 'len': rng.choice([0, 1, 5, 30]), 'n': 0})
                continue
            d = rng.choice(self.defs)
            n = rng.choice([0, 1, 2, 3]) if d['rep'] and d['rl'] else 0
            ln = d['fl'] + n * d['rl']
            if rng.random() < .05:
                ln += rng.choice([1, -1])
            if d['id'] == 1 and rng.random() < .3:
                ln = 65
            if rng.random() < .2 or ln <= 0:
                ln = 0
                n = (d['len'] - d['fl']) // d['rl'] if d['rep'] and d['rl'] else 0
            out.append({'id': d['id'], 'len': ln, 'n': n})
        return out

    def puts(self, chain, some=1.0):
        rng = self.rng
        out = []
        for i, m in enumerate(chain):
            d = self.by.get(m['id'])
            if d is None or (m['len'] and m['len'] != 65 and m['len'] != d['fl'] + m['n'] * d['rl']):
                continue
            parts = split(d)
            for b in range(m['n'] + 1):
                ps, sfs = parts[1 if b else 0]
                for k, p in enumerate(ps):
                    if rng.random() < some:
                        out.append({'m': i + 1, 'b': b + 1, 'p': k + 1, 'v': value(rng, p['t'], p['len'])})
                for k, p in enumerate(sfs):
                    if rng.random() < some:
                        out.append({'m': i + 1, 'b': b + 1, 's': k + 1, 'v': value(rng, 'sunssf', 1)})
        return out

    def point(self, chain, x):
        """the point a value is put in"""
        d = self.by[chain[x['m'] - 1]['id']]
        ps, sfs = split(d)[1 if x['b'] > 1 else 0]
        return ps[x['p'] - 1] if 'p' in x else sfs[x['s'] - 1]

    def pics(self):
        """a PICS document"""
        rng = self.rng
        ms = []
        for m in self.chain():
            a = [('id', str(m['id']))]
            if m['len'] or (m['id'] not in self.by and rng.random() < .5):
                a.append(('len', str(m['len'])))
            if rng.random() < .1:
                a.append(('index', str(rng.choice([1, 2]))))
            bs = []
            d = self.by.get(m['id'])
            if d is not None:
                parts = split(d)
                spots = rng.choice([[0], [0, None], [0, None], [0] + list(range(1, m['n'] + 1)), [0, None] + list(range(2, m['n'] + 1)),
                                    [None, 0], [0] + [rng.randrange(1, m['n'] + 1) for _ in range(2)] if m['n'] else [0], [], [None]])
                for b in spots:
                    ba = []
                    if b != 0:
                        ba.append(('type', 'repeating'))
                        if b:
                            ba.append(('index', str(b)))
                    elif rng.random() < .3:
                        ba.append(('type', 'fixed'))
                    ps = []
                    if b == 0 or d['rep']:
                        pts, sfs = parts[0 if b == 0 else 1]
                        for p in pts + sfs:
                            if rng.random() < .15:
                                continue
                            pa = [('id', p['id'])]
                            k = rng.random()
                            if k < .2:
                                pa.append(('impl', 'false'))
                            elif k < .35:
                                pa.append(('impl', 'true'))
                            if rng.random() < .1:
                                pa.append(('access', 'rw'))
                            ps.append(elem('point', pa, text_of(rng, p['t'], p['len'])))
                        if rng.random() < .3:
                            rng.shuffle(ps)
                        if rng.random() < .1:
                            ps.append(elem('point', [('id', 'Nowhere')], '12'))
                    bs.append(elem('block', ba, '', ps))
            ms.append(elem('model', a, '', bs))
        dev = elem('device', [('v', '1')] if rng.random() < .5 else [], '', ms)
        if rng.random() < .3:
            dev['a'].append(['addr', str(rng.choice([0, 1, 40000, 50000, 123]))])
        if rng.random() < .25:
            spoil(rng, dev, self.by)
        if rng.random() < .5:
            return {'how': 'element', 'doc': dev}
        doc = elem('sunSpecPics', [('v', '1')], '', [elem('manufacturer', x='Acme'), dev] if rng.random() < .4 else [dev])
        if rng.random() < .1:
            doc['k'].append(elem('device', [], '', [elem('model', [('id', '7'), ('len', '3')])]))
        if rng.random() < .08:
            if rng.random() < .5:
                doc['g'] = rng.choice(['sunspecpics', 'pics', 'device'])
            else:
                doc['k'] = [c for c in doc['k'] if c['g'] != 'device']
        return {'how': rng.choice(['file', 'pathlist', 'devlist']), 'doc': doc}


def spoil(rng, dev, by):
    def put(e, k, v):
        e['a'] = [p for p in e['a'] if p[0] != k] + ([[k, v]] if v is not None else [])
    ms = list(dev['k'])
    bs = [b for m in ms for b in m['k'] if by.get(int(m['a'][0][1]))]
    ps = [p for b in bs for p in b['k']]
    k = rng.choice(['tag', 'tag', 'attr', 'attr', 'index', 'index', 'num', 'num', 'extra'])
    if k == 'tag':
        e = rng.choice([dev] + ms + bs + ps)
        e['g'] = rng.choice(['x', 'model', 'block', 'point', 'Device', 'Point'])
    elif k == 'attr':
        e = rng.choice([dev] + ms * 2 + bs)
        if e is dev:
            put(e, 'addr', rng.choice(['', 'x', '40000.5']))
        elif e in ms:
            put(e, *rng.choice([('id', None), ('id', 'x'), ('id', ''), ('len', 'y'), ('len', ''), ('len', '1.0')]))
        else:
            put(e, 'type', rng.choice(['Fixed', 'rep', '', 'header']))
    elif k == 'index' and bs:
        b = rng.choice(bs)
        put(b, 'type', 'repeating')
        put(b, 'index', rng.choice(['0', '1', '2', '3', '4', '5', '-1', 'x', '', '1.5']))
    elif k == 'num' and ps:
        p = rng.choice(ps)
        typ = {q['id']: q['t'] for d in by.values() for q in d['fp'] + d['rp']}
        if typ.get(dict(map(tuple, p['a'])).get('id')) not in ('float32', 'string', 'eui48', 'ipv6addr', 'pad', None) and \
                sum(1 for d in by.values() for q in d['fp'] + d['rp'] if q['id'] == dict(map(tuple, p['a']))['id']) == 1:
            p['x'] = rng.choice(['x', '1.5', '--1', '0x', '010', '1 2', '12a', '+'])
    elif k == 'extra':
        e = rng.choice([dev] + ms + bs)
        e['k'].insert(rng.randrange(len(e['k']) + 1), elem('note', x=''))


def nearly(rng, x):
    """another text that looks alike"""
    k = rng.choice(['case', 'case', 'end', 'start', 'inner', 'nl', 'cut'])
    if k == 'case':
        return x.swapcase()
    if k == 'inner':
        return x.replace(' ', '  ') if ' ' in x else x + ' '
    return {'end': x + ' ', 'start': ' ' + x, 'nl': x + '\n', 'cut': x[:-1]}[k]


def alter(rng, doc):
    """another definition, different in one place"""
    def put(e, k, v):
        e['a'] = [p for p in e['a'] if p[0] != k] + ([[k, v]] if v is not None else [])

    def get(e, k):
        return dict(map(tuple, e['a'])).get(k)
    m = doc['k'][0]
    bs = [c for c in m['k'] if c['g'] == 'block']
    ps = [p for b in bs for p in b['k']]
    syms = [y for p in ps for y in p['k'] if y['g'] == 'symbol']
    said = [e for e in nodes(doc) if e['g'] in ('label', 'description', 'notes') and e['x']]
    kind = rng.choice(['nearly'] * 8 + ['text', 'text', 'units', 'access', 'mandatory', 'symvalue', 'symvalue', 'symtext', 'symgone', 'symnew', 'modeltext', 'modellen', 'type',
                       'sf', 'order', 'name', 'blocklen', 'newpoint', 'slen', 'offset', 'id'])
    if kind in ('text', 'units', 'access', 'mandatory', 'symnew', 'type', 'sf', 'slen', 'id', 'offset') and not ps:
        kind = 'modeltext'
    if kind.startswith('sym') and kind != 'symnew' and not syms:
        kind = 'modeltext'
    p = rng.choice(ps) if ps else None
    if kind == 'nearly' and not said:
        kind = 'modeltext'
    if kind == 'nearly':
        top = [e for x in nodes(doc) if x['g'] == 'model' for e in x['k'] if e in said]
        e = rng.choice(top if top and rng.random() < .4 else said)
        e['x'] = nearly(rng, e['x'])
    elif kind == 'text':
        p['k'].append(elem(rng.choice(['label', 'description', 'notes']), x=rng.choice(WORDS)))
    elif kind == 'units':
        put(p, 'units', rng.choice(['A', 'V', 'W', None]))
    elif kind == 'access':
        put(p, 'access', 'r' if get(p, 'access') == 'rw' else 'rw')
    elif kind == 'mandatory':
        put(p, 'mandatory', 'false' if get(p, 'mandatory') == 'true' else 'true')
    elif kind == 'symvalue':
        rng.choice(syms)['x'] = rng.choice(['0', '1', '2', '77'])
    elif kind == 'symtext':
        rng.choice(syms)['k'].append(elem(rng.choice(['label', 'description', 'notes']), x=rng.choice(WORDS)))
    elif kind == 'symgone':
        y = rng.choice(syms)
        for q in ps:
            q['k'] = [c for c in q['k'] if c is not y]
    elif kind == 'symnew':
        p['k'].append(elem('symbol', [('id', 'NEW')], '99'))
    elif kind == 'modeltext':
        doc['k'].append(elem('strings', [('id', get(m, 'id'))], '', [elem('model', k=[elem(rng.choice(['label', 'description', 'notes']), x=rng.choice(WORDS))])]))
    elif kind == 'modellen':
        put(m, 'len', str(int(get(m, 'len')) + rng.choice([1, 10])))
    elif kind == 'type':
        same = {'int16': 'uint16', 'uint16': 'enum16', 'enum16': 'uint16', 'int32': 'uint32', 'uint32': 'int32', 'int64': 'uint64', 'acc32': 'uint32',
                'bitfield32': 'uint32', 'bitfield16': 'uint16', 'count': 'uint16'}
        put(p, 'type', same.get(get(p, 'type'), get(p, 'type')))
    elif kind == 'sf':
        if get(p, 'type') not in ('string', 'eui48', 'ipv6addr', 'float32', 'sunssf', 'pad', 'bitfield16', 'bitfield32'):
            put(p, 'sf', rng.choice([None, '1', '-1', '0']))
    elif kind == 'order' and bs:
        b = rng.choice(bs)
        rng.shuffle(b['k'])
    elif kind == 'name':
        put(m, 'name', 'other')
    elif kind == 'blocklen' and bs:
        b = rng.choice(bs)
        put(b, 'len', str(int(get(b, 'len')) + 1))
    elif kind == 'newpoint' and bs:
        b = rng.choice(bs)
        b['k'].append(elem('point', [('id', 'NewPt'), ('offset', '0'), ('type', 'uint16')]))
    elif kind == 'slen':
        if get(p, 'type') == 'string':
            put(p, 'len', str(int(get(p, 'len')) + 1))
    elif kind == 'offset':
        put(p, 'offset', str(int(get(p, 'offset')) + 1))
    elif kind == 'id':
        # nothing refers to it
        if get(p, 'type') not in ('sunssf',):
            put(p, 'id', 'Renamed')


def clean(v):
    """strings a document can hold"""
    for mid, addr, ln, blocks in v.models:
        for b in blocks:
            for p, a in b:
                if p['t'] == 'string':
                    i = a - v.base
                    bs = [x for w in v.words[i:i + p['len']] for x in (w >> 8, w & 255)]
                    end = bs.index(0) if 0 in bs else len(bs)
                    bs = [x if x >= 32 and not 127 <= x < 160 else 66 for x in bs[:end]] + [0] * (len(bs) - end)
                    v.words[i:i + p['len']] = words(bs)
    return v


def puts_text(docs):
    out = {}
    for d in docs:
        for e in nodes(d['doc']):
            if e['x'] not in out:
                try:
                    f = val(float(e['x']))
                except ValueError:
                    f = val(None)
                out[e['x']] = [e['x'], [ord(c) for c in e['x']], f]
    return [out[k] for k in sorted(out)]


def scenarios(rng, count):
    out = []
    for n in range(count):
        # now and then many of everything
        w = World(rng, {3: 'blocks', 7: 'models'}.get(n % 500))
        ops = []
        docs = []
        kind = rng.choice(['built', 'built', 'scanned', 'docs', 'docs', 'compare', 'compare', 'compare'])
        if kind == 'built':
            ch = w.chain()
            ops.append({'op': 'build', 'd': 1, 'set': 1, 'base': rng.choice([40000, 0, 50000]), 'models': ch, 'put': w.puts(ch, rng.choice([1, 1, .7]))})
            ops += around(rng)
        elif kind == 'scanned':
            v = Dev(rng, [d for d in w.defs], rng.choice([40000, 0, 50000]))
            for m in w.chain():
                if m['id'] in w.by and not m['len']:
                    m['len'] = None
                v.add(m['id'], ln=m['len'] if m['id'] not in w.by or m['id'] == 1 else None, n=m['n'])
            clean(v).end()
            ops.append({'op': 'scan', 'd': 1, 'set': 1, 'segs': v.segs(), 'read': rng.random() < .9})
            ops += around(rng)
        elif kind == 'docs':
            docs = [w.pics() for _ in range(rng.choice([1, 2, 3]))]
            for i, x in enumerate(docs):
                x['style'] = rng.choice([None, 'decl', 'space', 'ascii', 'latin', 'utf16', 'bom'])
                ops.append({'op': 'load', 'd': i + 1, 'set': rng.choice([1, 1, 1, 2]), 'src': 0, 'n': i + 1, 'empty': rng.random() < .5})
            ops += [{'op': 'write', 'd': 1, 'single': False}, {'op': 'load', 'd': 9, 'set': 1, 'src': 1, 'how': 'element'}, {'op': 'cmp', 'a': 1, 'b': 9},
                    {'op': 'cmp', 'a': 1, 'b': rng.randrange(len(docs)) + 1}]
        else:
            ch = w.chain() or w.chain()
            for _ in range(5):
                if w.altered and not any(m['id'] == w.other for m in ch):
                    ch = w.chain()
            put = w.puts(ch)
            base = rng.choice([40000, 0, 50000])
            ops.append({'op': 'build', 'd': 1, 'set': 1, 'base': base, 'models': ch, 'put': put})
            ch2, put2 = copy(ch), copy(put)
            k = rng.random()
            if k < .35 and ch2 and not w.altered:
                i = rng.randrange(len(ch2))
                if rng.random() < .3 or ch2[i]['id'] not in w.by or not ch2[i]['len']:
                    j = rng.choice(['drop', 'dup', 'swap', 'len'])
                    if j == 'drop':
                        del ch2[i]
                    elif j == 'dup':
                        ch2.insert(i, copy(ch2[i]))
                    elif j == 'swap':
                        ch2.reverse()
                    else:
                        ch2[i]['len'] += 1
                    put2 = w.puts(ch2) if rng.random() < .5 else []
                else:
                    d = w.by[ch2[i]['id']]
                    if d['rl']:
                        ch2[i]['n'] += 1
                        ch2[i]['len'] += d['rl']
            elif k < .7 and put2 and not w.altered:
                x = rng.choice(put2)
                p = w.point(ch2, x)
                floats = [q for q in put2 if 'p' in q and w.point(ch2, q)['t'] == 'float32' and q['v']]
                if floats and rng.random() < .6:
                    x = rng.choice(floats)
                    p = w.point(ch2, x)
                x['v'] = beside(rng, x['v'], p) if rng.random() < .6 else value(rng, p['t'], p['len'])
            ops.append({'op': 'build', 'd': 2, 'set': rng.choice([1, 2, 2, 2] if w.altered else [1, 2]), 'base': rng.choice([base, base, base, 7]), 'models': ch2, 'put': put2})
            ops += [{'op': 'cmp', 'a': 1, 'b': 2}, {'op': 'cmp', 'a': 2, 'b': 1}, {'op': 'cmp', 'a': 1, 'b': 1}]
            if put:
                x = rng.choice(put)
                q = [q for q in w.puts(ch) if all(q.get(f) == x.get(f) for f in ('m', 'b', 'p', 's'))]
                ops += [{'op': 'put', 'd': 1, 'put': q}, {'op': 'cmp', 'a': 1, 'b': 2}, {'op': 'cmp', 'a': 2, 'b': 1}]
        out.append({'id': 'pc%d' % n, 'sets': w.sets, 'docs': docs, 'ops': ops,
                    'ints': ints_of([x['doc'] for y in w.sets for x in y] + [x['doc'] for x in docs]), 'texts': puts_text(docs)})
    return out


def around(rng):
    single = rng.random() < .3
    how = rng.choice(['element', 'element', 'file', 'pathlist', 'devlist'])
    ops = [{'op': 'write', 'd': 1, 'single': single, 'say': rng.random() < .5, 'pretty': rng.random() < .2},
           {'op': 'load', 'd': 2, 'set': rng.choice([1, 1, 1, 1, 2]), 'src': 1, 'how': how}, {'op': 'cmp', 'a': 1, 'b': 2}, {'op': 'cmp', 'a': 2, 'b': 1}]
    if rng.random() < .4:
        ops += [{'op': 'write', 'd': 2, 'single': False}, {'op': 'load', 'd': 3, 'set': 1, 'src': 2, 'how': how}, {'op': 'cmp', 'a': 2, 'b': 3}]
    return ops


def props_of(clause, trace, at, scenario):
    if clause == 'cmp.changes':
        before = [e for e in trace['ev'][:at] if e['e'] != 'state']
        return {'C20'} if before[-1]['e'] == 'cmp' else {'C19'}
    return {'C19'} if clause.startswith('pics.') else {'C20'}


MUT_IO = ('laxroot laxmodel lenignored noaddr sticky sentinel keepold laxpoint index0 norepeat early chain '
          'scaledtext onlyfirst noindex impl').split()
MUT_CMP = 'half nosf nolen nolabel nosym fixedonly nocount touches'.split()


def main(run):
    rng = random.Random(run.seed * 7919 + 19)
    run.mc('MCPics', dict(Mut='ok'), ['NoViolation'],
           label='writing, reading and comparing a device of every small shape; every small document')
    run.mcs([(('MCPics', dict(Mut=m), ['NoViolation'], 'documents, design error ' + m, ['NoViolation']), {})
             for m in (MUT_CMP if run.prop == 'C20' else MUT_IO)])
    run.conform('picsdrv', scenarios(rng, 20000 if run.thorough else 2500), 'PicsTrace', props_of, procs=6)
    run.assumptions += ['texts of points are within what XML can hold; scale factors are between -10 and 10, or not implemented']
