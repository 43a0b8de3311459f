"""C09-C11: Modbus maps."""
import json
import random
import struct

INV = ['NoViolation', 'Ascending']


def frac(s):
    return s


def gen_float(rng, kind):
    """an exactly representable value, as text and as sign, exponent and fraction bits"""
    mb = 23 if kind == 'f32' else 52
    k = rng.random()
    if k < .1:
        s = rng.randrange(2)
        return ('-0.0' if s else rng.choice(['0', '0.0'])), {'bad': False, 'zero': True, 's': s, 'e': 0, 'bits': []}
    if k < .2:
        # outside the type
        if kind == 'f32':
            return rng.choice(['1e39', '-4e38']), {'bad': True, 'zero': False, 's': 0, 'e': 0, 'bits': []}
        return 'x1', {'bad': True, 'zero': False, 's': 0, 'e': 0, 'bits': []}
    s = rng.randrange(2)
    e = rng.choice([0, 1, -1, 5, 10, rng.randrange(-126, 128), rng.randrange(-30, 31)])
    if kind == 'f64' and rng.random() < .3:
        e = rng.randrange(-1022, 1024)
    bits = [rng.randrange(2) for _ in range(rng.choice([0, 1, 3, 10, mb]))]
    m = 1
    for b in bits:
        m = m * 2 + b
    e2 = e - len(bits)
    x = float(m) * 2.0 ** e2 if e2 > -1000 else float(m) * 2.0 ** -900 * 2.0 ** (e2 + 900)
    x = -x if s else x
    return repr(x), {'bad': False, 'zero': False, 's': s, 'e': e, 'bits': bits}


def gen_int(rng, typ):
    n = int(typ[1:])
    lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if typ[0] == 's' else (0, (1 << n) - 1)
    v = rng.choice([0, 1, 2, hi, hi - 1, lo, lo + 1, 255, 256, 65535, -1, hi + 1, lo - 1, 10 ** 19, rng.randrange(lo, hi + 1),
                    rng.randrange(lo, hi + 1), rng.randrange(lo, hi + 1)])
    if rng.random() < .04:
        return rng.choice(['abc', '1.5', '', '12x', '0xg', '--1'])
    if v >= 0 and rng.random() < .4:
        return rng.choice(['0x%x', '0x%X', '0X%04x']) % v
    if v < 0 and rng.random() < .2:
        return '-0x%x' % -v
    return '%d' % v


def gen_el(rng, off, good):
    """one register element; good: nothing wrong with it"""
    while True:
        typ = rng.choice(['s16', 'u16', 's32', 'u32', 's64', 'u64', 'f32', 'f64', 'string', 'string', 'hexstr', 'hexstr', '~', '~'])
        el = {'off': off, 'len': 0, 'typ': typ, 'acc': rng.choice(['~', 'r', 'rw']), 'has': rng.random() < .85, 'txt': ''}
        if typ in ('f32', 'f64'):
            el['txt'], el['fl'] = gen_float(rng, typ)
            if good and el['fl']['bad']:
                continue
            if rng.random() < .2:
                el['len'] = rng.randrange(1, 9)
        elif typ[0] in 'su' and typ != 'string':
            el['txt'] = gen_int(rng, typ)
            if rng.random() < .2:
                el['len'] = rng.randrange(1, 9)
            if el['txt'] == '':
                el['has'] = False
            if good and el['has']:
                try:
                    v = int(el['txt'], 0)
                    struct.pack('>' + {'s16': 'h', 'u16': 'H', 's32': 'l', 'u32': 'L', 's64': 'q', 'u64': 'Q'}[typ], v)
                except Exception:
                    continue
        elif typ == 'string':
            n = rng.choice([0, 1, 2, 3, 4, 7, 8, 15])
            alphabet = 'abcXYZ 019<>&"\'_-\n\t' + '\xe9\xff\xa0'
            el['txt'] = ''.join(rng.choice(alphabet) for _ in range(n))
            if not good and rng.random() < .1:
                el['txt'] += '\u20ac'
            el['has'] = bool(el['txt'])
            k = (len(el['txt']) + 1) // 2
            el['len'] = rng.choice([0, k, k + 1, k + 5, 8 if k <= 8 else k])
            if el['len'] == 0 and k == 0:
                el['len'] = rng.choice([0, 2])
        else:
            n = rng.choice([0, 1, 2, 3, 8, 20]) if rng.random() < .93 else rng.choice([66, 70, 127, 140])
            b = [rng.randrange(256) for _ in range(2 * n)]
            sep = rng.choice([0, 0, 4, 2, 8])
            h = ''.join('%02x' % x for x in b)
            if rng.random() < .3:
                h = h.upper()
            if sep:
                h = ' '.join(h[i:i + sep] for i in range(0, len(h), sep))
                if rng.random() < .2:
                    h = ' ' * rng.choice([1, 3]) + h + ' ' * rng.choice([0, 2])
            if not good and rng.random() < .3:
                h = rng.choice([h + '0', h + '00', h[:-1] + 'g' if h else 'zz', h + '000', h[1:], '0x' + h[2:], h + 'xyzt'])
            el['txt'] = h
            el['has'] = bool(h)
            ln = len(h.replace(' ', '')) // 4
            el['len'] = rng.choice([0, 0, ln, ln + 1, ln + 3])
            if not good and ln > 1 and rng.random() < .2:
                el['len'] = ln - 1
        return el


def size_of(el):
    """register count, to place the next element (an estimate is enough)"""
    t = el['typ']
    if t[1:] in ('16', '32', '64'):
        return int(t[1:]) // 16
    if el['len']:
        return el['len']
    if t == 'string':
        return (len(el['txt']) + 1) // 2 if el['has'] else 0
    return len(el['txt'].replace(' ', '')) // 4 if el['has'] else 0


def gen_doc(rng, good=None):
    good = rng.random() < .7 if good is None else good
    addr = rng.choice([40000, 0, 50000, 1, 65000, rng.randrange(65536)])
    doc = {'func': rng.choice(['~', 'holding', 'input']), 'addr': addr, 'addrtxt': str(addr),
           'ids': [rng.choice(['~', '~', v, '']) for v in ('mac', '00:11:22', 'map & "1"', '2024-01-01T00:00:00Z')], 'els': []}
    if addr == 40000 and rng.random() < .6:
        doc['addrtxt'] = '~'
    if not good and rng.random() < .15:
        doc['func'] = rng.choice(['coil', '', 'Holding', '3'])
    if not good and rng.random() < .1:
        doc['addrtxt'] = rng.choice(['abc', '', '1.5'])
        doc['badaddr'] = True
    nxt = 0
    many = rng.random() < .01
    for _ in range(rng.choice([40, 130]) if many else rng.randrange(0, 7)):
        k = rng.random()
        off = -1 if k < .4 else nxt if k < .6 else nxt + rng.randrange(1, 12)
        if not good and rng.random() < .1 and nxt > 0:
            off = rng.randrange(0, nxt)
        el = gen_el(rng, off, good)
        if not good and rng.random() < .05:
            el['typ'] = rng.choice(['u8', 'U16', 'int16', 'hex'])
            el['fl'] = {'bad': True, 'zero': False, 's': 0, 'e': 0, 'bits': []}
        doc['els'].append(el)
        nxt = max(nxt, off if off >= 0 else nxt) + size_of(el)
    if not good and rng.random() < .03:
        doc['notxml'] = True
    return doc


HOW = ['file', 'file', 'element', 'pathlist', 'dev', 'devlist', 'client', 'clientlist']


def mutate(rng, doc):
    """a document that differs in one respect from doc"""
    d = json.loads(json.dumps(doc))
    k = rng.randrange(9)
    els = d['els']
    if k == 0:
        d['addr'] = (d['addr'] + 1) % 65536
        d['addrtxt'] = str(d['addr'])
    elif k == 1:
        d['func'] = 'holding' if d['func'] == 'input' else 'input'
    elif k == 2 and els:
        e = rng.choice(els)
        e['acc'] = 'r' if e['acc'] == 'rw' else 'rw'
    elif k == 3:
        els.append(gen_el(rng, -1, True))
    elif k == 4 and els:
        els.pop()
    elif k == 5:
        d['ids'][rng.randrange(4)] = 'other'
    elif els:
        i = rng.randrange(len(els))
        e = els[i]
        if e['typ'] in ('u16', 's16', 'u32', 's32', 'u64', 's64'):
            e['has'] = True
            e['txt'] = str(rng.randrange(100))
        elif e['typ'] in ('hexstr', '~') and e['has']:
            t = list(e['txt'])
            p = rng.randrange(len(t))
            if t[p] != ' ':
                t[p] = '1' if t[p] == '0' else '0'
            e['txt'] = ''.join(t)
        elif e['typ'] == 'string' and e['has']:
            e['txt'] = 'q' + e['txt'][1:]
        else:
            els[-1] = gen_el(rng, els[-1]['off'], True)
    return d


def access_ops(rng, m, base, span, count):
    ops = []
    for _ in range(count):
        a = base + rng.randrange(-2, span + 4)
        n = rng.choice([0, 1, 1, 2, 3, rng.randrange(0, span + 3)])
        if rng.random() < .5:
            ops.append({'op': 'read', 'm': m, 'addr': a, 'n': n, 'fc': rng.choice([0, 0, 3, 4, 3])})
        else:
            if rng.random() < .15:
                # more than the map holds
                n = span + rng.randrange(0, 8)
                a = base + rng.randrange(-1, 2)
            ln = 2 * n + (1 if rng.random() < .1 else 0)
            ops.append({'op': 'write', 'm': m, 'addr': a, 'data': [rng.randrange(256) for _ in range(ln)]})
    return ops


def load_scenarios(rng, count):
    out = []
    for n in range(count):
        doc = gen_doc(rng)
        ops = [{'op': 'load', 'm': 'a', 'doc': doc, 'how': rng.choice(HOW), 'style': rng.choice([None, None, 'latin', 'utf16', 'bom'])}]
        ops += access_ops(rng, 'a', doc['addr'], 20, 3)
        out.append({'id': 'l%d' % n, 'ops': ops})
    # every type at its limits
    n = 0
    for typ in ('s16', 'u16', 's32', 'u32', 's64', 'u64'):
        b = int(typ[1:])
        for v in (0, 1, -1, (1 << b - 1) - 1, 1 << b - 1, (1 << b) - 1, 1 << b, -(1 << b - 1), -(1 << b - 1) - 1, 258, 65536,
                  0x1234567890abcdef):
            for t in ('%d' % v, '0x%x' % v if v >= 0 else '-0x%x' % -v):
                doc = {'func': '~', 'addr': 40000, 'addrtxt': '~', 'ids': ['~'] * 4, 'els': [
                    {'off': -1, 'len': 0, 'typ': typ, 'acc': '~', 'has': True, 'txt': t},
                    {'off': -1, 'len': 0, 'typ': 'u16', 'acc': '~', 'has': True, 'txt': '0xabcd'}]}
                out.append({'id': 'lt%d' % n, 'ops': [{'op': 'load', 'm': 'a', 'doc': doc, 'how': 'element'}]})
                n += 1
    for n in range(30):
        b = [rng.randrange(256) for _ in range(2 * rng.randrange(1, 30))]
        lines = ['# a comment']
        i = 0
        while i < len(b):
            k = rng.randrange(1, 9)
            lines.append(' '.join('%02x' % x for x in b[i:i + k]) + rng.choice(['', ' ', '\r']))
            i += k
            if rng.random() < .2:
                lines.append('#' + 'aa bb')
        good = rng.random() < .8
        if not good:
            lines.append(rng.choice(['xx', '1ff', '-1']))
        out.append({'id': 'lh%d' % n, 'ops': [{'op': 'hex', 'm': 'a', 'text': '\n'.join(lines) + '\n', 'bytes': b, 'good': good}] +
                    access_ops(rng, 'a', 40000, len(b) // 2, 4)})
    return out


def memory_scenarios(rng, scripts, count):
    out = []
    for n, sc in enumerate(scripts):
        base = rng.choice([0, 40000, 65530, 1])
        ops = [{'op': 'new', 'm': 'm', 'func': rng.choice(['holding', 'input', '~']), 'base': base, 'ids': ['~'] * 4}]
        k = 0
        for x in sc:
            k += 1
            if x['op'] == 'add':
                byaddr = rng.random() < .4
                ops.append({'op': 'add', 'm': 'm', 'addr': base + x['off'] if byaddr else -1, 'off': x['off'], 'n': x['n'],
                            'acc': rng.choice(['r', 'rw'])})
            elif x['op'] == 'put':
                ops.append({'op': 'put', 'm': 'm', 'off': x['off'], 'b': [k, x['off'] % 256], 'acc': 'r'})
            elif x['op'] == 'read':
                ops.append({'op': 'read', 'm': 'm', 'addr': base + x['off'], 'n': x['n'], 'fc': 0})
            else:
                ops.append({'op': 'write', 'm': 'm', 'addr': base + x['off'], 'data': [rng.randrange(256) for _ in range(2 * x['n'])]})
        # a put next to a block in the model's order may be out of order here only if an add was refused
        ops.append({'op': 'read', 'm': 'm', 'addr': base, 'n': 2, 'fc': 0})
        out.append({'id': 'ms%d' % n, 'ops': ops})
    for n in range(count):
        base = rng.choice([0, 40000, 50000, 65500, rng.randrange(60000)])
        ops = []
        nxt = 0
        if rng.random() < .5:
            doc = gen_doc(rng, True)
            base = doc['addr']
            ops.append({'op': 'load', 'm': 'm', 'doc': doc, 'how': rng.choice(HOW)})
            span = 24
        else:
            ops.append({'op': 'new', 'm': 'm', 'func': rng.choice(['holding', 'input', 'coil', '~']) if rng.random() < .1 else
                        rng.choice(['holding', 'input']), 'base': base, 'ids': ['~'] * 4})
            for _ in range(rng.randrange(1, 5)):
                off = nxt + rng.choice([0, 0, 1, 3, -1])
                c = rng.choice([1, 2, 3, 10])
                if rng.random() < .3 and off >= nxt:
                    ops.append({'op': 'put', 'm': 'm', 'off': off, 'b': [rng.randrange(256) for _ in range(2 * c)], 'acc': 'rw'})
                    nxt = off + c
                else:
                    ops.append({'op': 'add', 'm': 'm', 'addr': base + off if rng.random() < .3 else -1, 'off': off, 'n': c,
                                'acc': rng.choice(['r', 'rw'])})
                    if ops[-1]['addr'] == -1 or base + off >= base:
                        nxt = max(nxt, off + c) if off >= nxt else nxt
                    if ops[-1]['addr'] < -1 or ops[-1]['addr'] == -1 and off < 0:
                        ops[-1]['addr'] = -1
                        ops[-1]['off'] = max(0, off)
            span = nxt
        ops += access_ops(rng, 'm', base, span, rng.randrange(4, 12))
        out.append({'id': 'mh%d' % n, 'ops': ops})
    return out


def save_scenarios(rng, count):
    out = []
    for n in range(count):
        doc = gen_doc(rng, True)
        ops = [{'op': 'load', 'm': 'a', 'doc': doc, 'how': rng.choice(['file', 'element'])},
               {'op': 'load', 'm': 'b', 'doc': doc, 'how': 'element'},
               {'op': 'compare', 'm': 'a', 'm2': 'b'}]
        if rng.random() < .5:
            ops += access_ops(rng, 'a', doc['addr'], 16, 3)
            ops.append({'op': 'compare', 'm': 'a', 'm2': 'b'})
        if rng.random() < .3:
            ops.append({'op': 'add', 'm': 'a', 'addr': -1, 'off': 40 + rng.randrange(3), 'n': rng.randrange(1, 4), 'acc': rng.choice(['r', 'rw'])})
            ops.append({'op': 'compare', 'm': 'b', 'm2': 'a'})
        ops.append({'op': 'save', 'm': 'a', 'm2': 'c', 'nodata': rng.random() < .25, 'how': rng.choice(['element', 'file']),
                    'parent': rng.random() < .2})
        for k in range(3):
            ops.append({'op': 'load', 'm': 'd', 'doc': mutate(rng, doc), 'how': 'element'})
            ops.append({'op': 'compare', 'm': rng.choice(['b', 'a']), 'm2': 'd'})
            ops.append({'op': 'compare', 'm': 'd', 'm2': 'b'})
        ops.append({'op': 'compare', 'm': 'c', 'm2': 'b'})
        ops.append({'op': 'save', 'm': 'c', 'm2': 'e', 'nodata': False})
        ops.append({'op': 'compare', 'm': 'a', 'm2': 'e'})
        out.append({'id': 'sv%d' % n, 'ops': ops})
    return out


def props_of(clause, trace, at, scenario):
    e = trace['ev'][at - 1]
    head, tail = clause.split('.')[0], clause.split('.')[-1]
    dev = {'C25'} if e.get('via') == 'dev' and tail == 'untyped' else set()
    if head in ('read', 'readonly', 'write', 'add', 'put'):
        return {'C09'} | dev
    if head in ('load', 'new'):
        # a map loaded wrong is not the one written down, nor does it come back
        return {'C10'} | dev | ({'C11'} if tail in ('base', 'func', 'ids', 'access') else set())
    if head in ('save', 'saving', 'compare', 'comparing'):
        return {'C11'}
    if head == 'harness':
        return None
    return {'C09', 'C10', 'C11'}


def main(run):
    rng = random.Random(run.seed * 7919 + 5)
    big = run.thorough
    base = dict(Depth=6 if big else 5, MaxOff=3, Mut='none', Record=False)
    run.mc('MCModbusMap', base, INV, label='map model, depth %d' % base['Depth'])
    for mut in ('step', 'gap', 'short'):
        run.mc('MCModbusMap', dict(base, Depth=5, Mut=mut), INV, label='map model, design error ' + mut, killed_by=['NoViolation'])
    sc = []
    if run.prop == 'C09':
        r = run.mc('MCModbusMap', dict(base, Depth=9, Record=True), ['PrintScripts'], label='scripts', simulate=2500 if big else 500,
                   depth=12, seed=run.seed, workers=1)
        scripts = [json.loads(p[7:]) for p in r.prints if p.startswith('SCRIPT ')]
        run.notes['model_behaviours_replayed'] = len(scripts)
        sc += memory_scenarios(rng, scripts, 10000 if big else 900)
        sc += load_scenarios(rng, 200)
    elif run.prop == 'C10':
        sc += load_scenarios(rng, 12000 if big else 1500)
    else:
        sc += save_scenarios(rng, 6000 if big else 700)
        sc += load_scenarios(rng, 100)
    run.conform('mapdrv', sc, 'ModbusMapTrace', props_of)
