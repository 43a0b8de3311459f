"""C12-C18, C25: SunSpec devices: scanning, layout, reading, values, writing, names, faults."""
import json
import random

REGS = {'int16': 1, 'uint16': 1, 'count': 1, 'acc16': 1, 'enum16': 1, 'bitfield16': 1, 'pad': 1, 'sunssf': 1,
        'int32': 2, 'uint32': 2, 'acc32': 2, 'enum32': 2, 'bitfield32': 2, 'ipaddr': 2, 'float32': 2,
        'int64': 4, 'uint64': 4, 'acc64': 4, 'eui48': 4, 'ipv6addr': 8}
SIGNED = {'int16', 'int32', 'int64', 'sunssf'}
ACC = {'acc16', 'acc32', 'acc64', 'ipaddr'}
INTS = [t for t in REGS if t not in ('pad', 'sunssf', 'float32', 'eui48', 'ipv6addr')]
SCALED = ['int16', 'uint16', 'acc32', 'int32', 'uint32', 'acc64', 'int64', 'uint64', 'acc16', 'count']
ALL = INTS + ['float32', 'eui48', 'ipv6addr', 'string', 'string']
NAMES = ['A', 'B', 'W', 'Hz', 'PhV', 'WH', 'Mn', 'Md', 'SN', 'Evt1', 'St', 'DCA', 'Tmp', 'VAr', 'PF', 'Conn', 'x1', 'Q_q', 'Vr', 'Opt']
BASES = [40000, 0, 50000]
NONE = {'k': 'none', 'v': 0, 'n': ''}


def ident(rng):
    """a name of any style; not one of the library's own attributes"""
    head = rng.choice(['X', 'q', 'DC', 'Str', 'inp', 'z_', 'M'])
    return head + rng.choice(['', '_', 'A', 'b', 'Mod']) + str(rng.randrange(100)) + rng.choice(['', 'x', 'Y', '_in'])


# -- definitions -------------------------------------------------------------------------------------
def place(rng, pts, gap=.1, off=0):
    for p in pts:
        if rng.random() < gap:
            off += rng.choice([1, 1, 2, 5])
        p['off'] = off
        off += p['len']
    return off


def points(rng, n, prefix, outer, types=None, scaled=.5, loose=False):
    """n points, and scale factors for some; outer: scale factors of the fixed block"""
    names = [prefix + x for x in NAMES]
    rng.shuffle(names)
    names = [prefix + ident(rng) + '_%d' % i if rng.random() < .15 else x for i, x in enumerate(names)]
    while len(names) < n:
        names.append('%sp%d' % (prefix, len(names)))
    sfs = ['%s_SF' % x for x in rng.sample(['A', 'V', 'W', 'Tmp'], rng.randrange(0, 4))]
    pts = [{'id': x, 'off': 0, 't': 'sunssf', 'len': 1, 'sf': NONE} for x in sfs]
    for i in range(n):
        t = rng.choice(types or (ALL + ['pad'] if rng.random() < .5 else SCALED))
        ln = REGS.get(t) or rng.choice([1, 2, 4, 8, 16])
        p = {'id': names[i], 'off': 0, 't': t, 'len': ln, 'sf': NONE, 'showlen': rng.random() < .3}
        if t in SCALED and rng.random() < scaled:
            use = sfs + outer
            if use and rng.random() < .7:
                p['sf'] = {'k': 'pt', 'v': 0, 'n': rng.choice(use)}
            else:
                p['sf'] = {'k': 'const', 'v': rng.choice([-3, -2, -1, 0, 1, 2, 3, 10, -10]), 'n': ''}
        if rng.random() < .3:
            p['access'] = rng.choice(['rw', 'r'])
        if rng.random() < .2:
            p['mandatory'] = rng.choice(['true', 'false'])
        if rng.random() < .2:
            p['units'] = 'A'
        pts.append(p)
    if loose and pts:
        for p in rng.sample(pts, 1):
            if p['t'] in SCALED:
                p['sf'] = {'k': 'pt', 'v': 0, 'n': 'No_SF'}
    rng.shuffle(pts)
    return pts, sfs


def definition(rng, mid, name=None, size=None, rep=None, types=None, loose=False, scaled=.5):
    n = size if size is not None else rng.choice([0, 1, 2, 3, 4, 6, 8])
    fp, sfs = points(rng, n, '', [], types, scaled, loose)
    fl = place(rng, fp) + rng.choice([0, 0, 0, 1, 3])
    d = {'id': mid, 'name': name or 'model_%d' % mid, 'fl': fl, 'fp': fp, 'rep': False, 'rl': 0, 'rp': [], 'rn': 'repeating', 'len': fl}
    if rep if rep is not None else rng.random() < .5:
        pre = rng.choice(['', '', 'r'])
        d['rep'] = True
        d['rp'], _ = points(rng, rng.choice([1, 2, 3, 4]), pre, sfs, types, scaled, loose and rng.random() < .5)
        d['rl'] = place(rng, d['rp']) + rng.choice([0, 0, 1])
        d['rn'] = rng.choice(['repeating', 'module', 'string', 'inv', ident(rng)])
        d['len'] = fl + d['rl'] * rng.choice([0, 1, 1, 2])
    return d


def long_definition(rng, mid):
    """more registers than one request may ask for, with points wherever the limit falls"""
    fp = []
    off = 0
    want = rng.choice([126, 127, 130, 250, 251, 260, 380])
    i = 0
    fp.append({'id': 'X_SF', 'off': 0, 't': 'sunssf', 'len': 1, 'sf': NONE})
    off = 1
    while off < want:
        left = 125 - off % 125
        t = rng.choice(['string', 'string', 'int64', 'uint32', 'int16', 'ipv6addr', 'float32'])
        ln = REGS.get(t) or rng.choice([8, 16, 20, 50, 60, max(1, left - 1), left, min(125, left + 1), min(125, left + 3), 125])
        if rng.random() < .05:
            off += rng.choice([3, 130])
        p = {'id': 'p%d' % i, 'off': off, 't': t, 'len': ln, 'sf': NONE}
        if t in SCALED and rng.random() < .3:
            p['sf'] = {'k': 'pt', 'v': 0, 'n': 'X_SF'}
        fp.append(p)
        off += ln
        i += 1
    if rng.random() < .3:
        x = fp.pop(0)
        x['off'] = off
        off += 1
        fp.append(x)
    d = {'id': mid, 'name': 'long%d' % mid, 'fl': off, 'fp': fp, 'rep': False, 'rl': 0, 'rp': [], 'rn': 'repeating', 'len': off}
    if rng.random() < .6:
        rp, _ = points(rng, rng.choice([2, 3, 5]), 'r', ['X_SF'])
        d.update(rep=True, rp=rp, rl=place(rng, rp) + rng.choice([0, 1]), rn=rng.choice(['repeating', 'row']))
    return d


def common(rng):
    pts = []
    off = 0
    for n, t, ln in [('Mn', 'string', 16), ('Md', 'string', 16), ('Opt', 'string', 8), ('Vr', 'string', 8), ('SN', 'string', 16),
                     ('DA', 'uint16', 1), ('Pad', 'pad', 1)]:
        pts.append({'id': n, 'off': off, 't': t, 'len': ln, 'sf': NONE})
        off += ln
    return {'id': 1, 'name': 'common', 'fl': 66, 'fp': pts, 'rep': False, 'rl': 0, 'rp': [], 'rn': 'repeating', 'len': 66}


def ids(rng, n):
    return rng.sample([0, 2, 3, 10, 11, 101, 103, 126, 160, 303, 502, 64001, 64110, 65534, 1000, 9999, 10000], n)


# -- contents ----------------------------------------------------------------------------------------
def words(b):
    return [b[i] * 256 + b[i + 1] for i in range(0, len(b), 2)]


def content(rng, t, ln):
    n = 2 * ln
    k = rng.random()
    if t == 'sunssf':
        x = rng.choice([0, 1, 2, 3, -1, -2, -3, -2, -1, 10, -10, 5, -7, -32768])
        return [x % 65536]
    if t == 'string':
        m = rng.choice([0, 0, 1, n - 1, n, n, rng.randrange(n + 1)])
        b = [rng.choice([65 + rng.randrange(26), 97 + rng.randrange(26), 48, 32, 228, 255, 1]) for _ in range(m)]
        if m > 2 and rng.random() < .1:
            b[m // 2] = 0
        return words(b + [0] * (n - m))
    if t == 'eui48':
        if k < .2:
            return [0, 65535, 65535, 65535]
        if k < .25:
            return [65535] * 4
        if k < .3:
            return [0] * 4
        return [rng.choice([0, 0, 0, 7])] + [rng.choice([0, 65535, rng.randrange(65536)]) for _ in range(3)]
    if t == 'ipv6addr':
        return [0] * 8 if k < .2 else [rng.choice([0, 0xfe80, 65535, rng.randrange(65536)]) for _ in range(8)]
    if t == 'float32':
        x = rng.choice([0, 0x80000000, 0x7fc00000, 0x7f800000, 0xff800000, 1, 0x80000001, 0x007fffff, 0x00800000, 0x7f7fffff, 0xffc00000,
                        0x7f800001, 0x3f800000, 0xc0490fdb, 0x3dcccccd, rng.randrange(2 ** 32), rng.randrange(2 ** 32)])
        return [x >> 16, x & 65535]
    top = 256 ** n
    near = [y for y in (0x8000, 0x7fff, 0xffff, 0x80000000, 0x7fffffff, 0xffffffff, top // 2 + 0xffff, top - 0x10000, top - 0x8000, top // 65536) if 0 <= y < top]
    x = rng.choice([0, 1, top - 1, top // 2, top // 2 - 1, top // 2 + 1, top - 2, rng.choice(near), rng.choice(near), 10, 12345 % top,
                    rng.randrange(top), rng.randrange(top), rng.randrange(top), rng.randrange(65536)])
    if t == 'acc64':
        x %= top // 2
    return words(list(x.to_bytes(n, 'big')))


def assigned(rng, p, k):
    """a value the point can hold, under the scale factor k in force (None: unknown)"""
    t = p['t']
    v = {'t': 'i', 's': 0, 'd': [], 'e': 0, 'c': [], 'form': 'int'}
    if t == 'string':
        n = rng.choice([0, 1, 2 * p['len'], 2 * p['len'] - 1, rng.randrange(2 * p['len'] + 1)])
        c = [rng.choice([65, 98, 48, 32, 126, rng.randrange(33, 127)]) for _ in range(n)]
        return dict(v, t='s', c=c)
    if t in ('eui48', 'ipv6addr'):
        m = 6 if t == 'eui48' else 16
        g = 2 if t == 'eui48' else 8
        h = ''.join('%02X' % rng.choice([0, 255, rng.randrange(256)]) for _ in range(m))
        return dict(v, t='s', c=[ord(x) for x in ':'.join(h[i:i + g] for i in range(0, len(h), g))])
    if t == 'float32':
        s = rng.randrange(2)
        if rng.random() < .1:
            return dict(v, t='f', s=s, form='float')
        m = rng.choice([1, 3, 5, 0xffffff, rng.randrange(1, 2 ** 12, 2), rng.randrange(1, 2 ** 24, 2)])
        return dict(v, t='f', s=s, c=[m, rng.choice([0, -1, -10, 5, -20, rng.randrange(-100, 80)])], form='float')
    top = 256 ** (2 * p['len'])
    lo, hi = (-(top // 2), top // 2 - 1) if t in SIGNED else (0, top - 1)
    if t == 'acc64':
        hi = top // 2 - 1
    n = rng.choice([lo, hi, 0, 1, hi - 1, lo + 1, 12, 1234, 29, 57, 115, 1001, rng.randrange(lo, hi + 1), rng.randrange(max(lo, -30000), min(hi, 30000) + 1)])
    n = max(lo, min(hi, n))
    if k:
        lim = 10 ** 14
        n = max(-lim, min(lim, n))
    v['s'] = int(n < 0)
    v['d'] = [int(c) for c in str(abs(n)).rstrip('0')]
    v['e'] = len(str(abs(n))) - len(v['d']) + (k or 0) if n else 0
    forms = ['int', 'int', 'str']
    if len(v['d']) + max(0, v['e']) < 16:
        forms.append('floatint')
    if not k and n < 0 and t not in SIGNED:
        forms = ['int']
    v['form'] = rng.choice(forms) if v['e'] >= 0 else rng.choice(['float', 'float', 'str'])
    return v


# -- devices -----------------------------------------------------------------------------------------
class Dev(object):
    """a device being made up: definitions, chain and memory"""

    def __init__(self, rng, defs, base=40000):
        self.rng = rng
        self.defs = {d['id']: d for d in defs}
        self.base = base
        self.words = [0x5375, 0x6e53]
        self.models = []       # (id, addr, len, blocks); a block is a list of (point, addr)

    def add(self, mid, ln=None, n=None, declared=None):
        rng = self.rng
        d = self.defs.get(mid)
        addr = self.base + len(self.words) + 2
        blocks = []
        if d is None:
            ln = ln if ln is not None else rng.choice([0, 1, 2, 5, 30])
        elif ln is None:
            ln = d['fl'] + (d['rl'] * n if d['rep'] else 0)
        w = [rng.randrange(65536) for _ in range(ln)]
        if d is not None:
            spots = [(0, d['fp'])]
            k = 0
            while d['rep'] and d['rl'] and d['fl'] + (k + 1) * d['rl'] <= ln:
                spots.append((d['fl'] + k * d['rl'], d['rp']))
                k += 1
            for off, pts in spots:
                blocks.append([(p, addr + off + p['off']) for p in pts if p['t'] not in ('pad', 'sunssf')])
                for p in pts:
                    c = content(rng, p['t'], p['len'])
                    for i, x in enumerate(c):
                        if off + p['off'] + i < ln:
                            w[off + p['off'] + i] = x
        self.words += [mid, ln if declared is None else declared] + w
        self.models.append((mid, addr, ln, blocks))
        return self

    def end(self, how=None):
        how = how or self.rng.choice(['plain', 'plain', 'plain', 'count'])
        if how == 'plain':
            self.words.append(65535)
        elif how == 'count':
            self.words += [65535, 0]
        elif how == 'more':
            self.words += [65535, 0, 1, 2, 3, 4]
        return self

    def segs(self, others=()):
        return [{'a': self.base, 'w': self.words}] + list(others)

    def at(self, a):
        return self.words[a - self.base]

    def scale(self, m, b, p):
        d = self.defs[self.models[m][0]]
        sf = p['sf']
        if sf['k'] == 'none':
            return 0
        if sf['k'] == 'const':
            return sf['v']
        mid, addr, ln, blocks = self.models[m]
        own = d['rp'] if b else d['fp']
        off = d['fl'] + (b - 1) * d['rl'] if b else 0
        for q in own:
            if q['t'] == 'sunssf' and q['id'] == sf['n']:
                x = self.at(addr + off + q['off'])
                break
        else:
            x = [self.at(addr + q['off']) for q in d['fp'] if q['t'] == 'sunssf' and q['id'] == sf['n']][0]
        x = x - 65536 if x > 32767 else x
        return 0 if x == -32768 else x

    def refs(self):
        return [(m, b, p) for m in range(len(self.models)) for b in range(len(self.models[m][3]))
                for p in range(len(self.models[m][3][b]))]


def device(rng, base=None, nmodels=None, types=None, sized=None, unknown=.15, repeat=.3, defs=None, hook=None):
    k = nmodels or rng.choice([1, 1, 2, 2, 3, 4])
    mids = ids(rng, k)
    if defs is None:
        defs = [definition(rng, i, name=rng.choice([None, None, 'inverter', 'mppt', 'm%d' % i, ident(rng)]), types=types, size=sized) for i in mids]
        if rng.random() < .25:
            defs.insert(0, common(rng))
    if hook:
        hook(defs)
    v = Dev(rng, defs, rng.choice(BASES) if base is None else base)
    order = [d['id'] for d in defs]
    if rng.random() < repeat:
        order.append(rng.choice(order))
    if rng.random() < unknown:
        order.insert(rng.randrange(len(order) + 1), rng.choice([7, 4242, 64999, 0]))
    for mid in order:
        if mid == 1 and mid in v.defs:
            v.add(1, ln=rng.choice([66, 66, 65]))
        else:
            v.add(mid, n=rng.choice([0, 1, 1, 2, 3]))
    return v.end()


def fault(rng, via, at):
    modes = ['none', 'none', 'exc', 'trunc', 'late', 'sendfail'] + (['crc', 'crc'] if via == 'rtu' else ['eof', 'reset', 'conn'])
    m = rng.choice(modes)
    if m == 'conn':
        return {'conn': rng.choice(['refuse', 'timeout', 'unreach', 'gai', 'reset'])}
    r = {'none': {'base': 'none'}, 'exc': {'base': 'exc', 'code': rng.choice([1, 2, 3, 4, 6, 11])},
         'trunc': {'ops': [['trunc', rng.choice([1, 2, 4, -1, -2, -3])]], 'end': rng.choice(['timeout', 'eof']) if via == 'tcp' else 'timeout'},
         'late': {'late': True}, 'crc': {'ops': [['xor', -1 - rng.randrange(2), 1 << rng.randrange(8)]]},
         'eof': {'base': 'none', 'end': 'eof'}, 'reset': {'base': 'none', 'end': 'reset'},
         'sendfail': {'sendfail': rng.choice(['serial', 'serialtimeout', 'oserror'] if via == 'rtu' else ['reset', 'pipe', 'timeout'])}}[m]
    return {'replies': [{}] * at + [r]}


def scenario(name, via, defs, segs, ops, loads=(), unit=1):
    return {'id': name, 'unit': unit, 'cfg': {'via': via, 'defs': defs, 'segs': segs}, 'loads': list(loads), 'ops': ops}


# -- scanning ----------------------------------------------------------------------------------------
def scans(rng, count):
    out = []
    for n in range(count):
        via = rng.choice(['rtu', 'tcp', 'tcp', 'mapped'])
        v = device(rng, nmodels=rng.choice([1, 2, 3]), sized=rng.choice([None, 1, 2]), unknown=.4, repeat=.5)
        if rng.random() < .08:
            v = Dev(rng, list(v.defs.values()), v.base).end()       # nothing but the end
        k = rng.random()
        if k < .08:
            while v.words[-1] in (0, 65535) and len(v.words) > 2:
                v.words.pop()                                       # no end marker
        elif k < .12:
            v.words = v.words[:rng.randrange(1, len(v.words))]      # ends anywhere
        elif k < .2 and not any(m[0] == 4711 for m in v.models):    # a length too short or too long for its blocks
            v = Dev(rng, list(v.defs.values()), v.base)
            for mid in list(v.defs):
                d = v.defs[mid]
                v.add(mid, ln=max(0, d['fl'] + rng.choice([-1, -1, 1, d['rl'] - 1, d['rl'] + 1, -d['fl']])))
            v.end()
        elif k < .24:
            v.words[rng.choice([0, 1])] = rng.choice([0, 0x5375, 0x6e53, 65535])   # no marker
        elif k < .28:
            v.words += [1, 2, 3]
        others = []
        if via == 'mapped' and rng.random() < .9:
            pass
        for b in BASES:
            if b != v.base and rng.random() < .5 and not (v.base <= b < v.base + len(v.words)):
                w = rng.choice([[0, 0, 0], [1], [0x5375, 0x6e53], [0x5375, 0x6e53, 65535], [0x6e53, 0x5375, 1, 2], [0x5375, 0, 0, 0],
                                [0x5375, 0x6e53, 7, 1, 0, 65535], [0x5375, 0x6e53, 7, 1], [0x5375, 0x6e54, 65535]])
                if b == 0 and v.base < len(w):
                    continue
                others.append({'a': b, 'w': w})
        ops = []
        for i in range(rng.choice([1, 2, 2, 3])):
            o = {'op': 'scan', 'wrap': rng.random() < .25, 'fresh': rng.random() < .3}
            if rng.random() < .25:
                o['stop'] = rng.choice([1, 1, 2, 3, 99])
            if rng.random() < .2:
                o['delay'] = rng.choice([1, 1000, 250000, 1500000, rng.randrange(1, 3000000)])
            if via != 'mapped' and rng.random() < .4:
                o['plan'] = fault(rng, via, rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 8]))
                if rng.random() < .2:
                    o['plan']['replies'] = [{'base': 'exc', 'code': 2}] + o['plan'].get('replies', [])
            ops.append(o)
        ops.append({'op': 'scan', 'fresh': False})
        if rng.random() < .3:
            ops.append({'op': 'wrap'})
        out.append(scenario('sc%d' % n, via, list(v.defs.values()), v.segs(others), ops, unit=rng.choice([1, 1, 17, 247])))
    return out


# -- layout ------------------------------------------------------------------------------------------
def layouts(rng, count):
    out = []
    for n in range(count):
        defs = [definition(rng, i, loose=rng.random() < .15) for i in ids(rng, 2)]
        if rng.random() < .3:
            defs.append(common(rng))
        if rng.random() < .08:
            defs[0].update(rep=True, rl=0, rp=[], rn='repeating')
        for d in defs:
            if d['id'] != 1 and not d['rep'] and d['fl'] < 60 and rng.random() < .1:
                d['fl'] = d['len'] = 66         # as long as the common model
        loads = []
        for _ in range(8):
            d = rng.choice(defs)
            ln = rng.choice([0, d['len'], d['fl'], d['fl'] + d['rl'], d['fl'] + 2 * d['rl'], d['fl'] + 3 * d['rl'],
                             d['fl'] + d['rl'] * rng.randrange(12), max(0, d['fl'] - 1), d['fl'] + 1, d['fl'] + max(0, d['rl'] - 1), d['fl'] + d['rl'] + 1])
            mid = d['id'] if rng.random() < .95 else rng.choice([5, 4242])
            if d['id'] == 1 or d['fl'] == 66:
                ln = rng.choice([65, 66, 0, 64, 67])
            loads.append({'mid': mid, 'addr': rng.choice([0, 40002, 40004, 50070, rng.randrange(60000)]), 'len': ln, 'client': rng.random() < .5})
        out.append(scenario('la%d' % n, 'rtu', defs, [], [], loads))
    return out


# -- reading -----------------------------------------------------------------------------------------
def change(rng, v, at):
    m = rng.choice([x for x in v.models if x[3]] or [None])
    if m is None:
        return None
    d = v.defs[m[0]]
    if rng.random() < .4:
        # a scale factor
        spots = [(m[1], d['fp'])] + [(m[1] + d['fl'] + k * d['rl'], d['rp']) for k in range(len(m[3]) - 1)]
        pts = [(p, a + p['off']) for a, ps in spots for p in ps if p['t'] == 'sunssf']
    else:
        pts = [q for b in m[3] for q in b]
    if not pts:
        return None
    p, a = rng.choice(pts)
    w = rng.choice([[0x8000], content(rng, p['t'], p['len'])]) if p['t'] == 'sunssf' else content(rng, p['t'], p['len'])
    if a - v.base + p['len'] > len(v.words):
        return None
    return {'at': at, 'a': a, 'w': w}


def reads(rng, count, types=None, name='rd'):
    out = []
    for n in range(count):
        via = rng.choice(['rtu', 'tcp', 'mapped'])
        v = device(rng, types=types, sized=rng.choice([None, 5, 8]))
        wrap = rng.random() < .4
        ops = [{'op': 'scan', 'wrap': wrap}]
        for _ in range(rng.choice([1, 2, 3])):
            o = {'op': 'read', 'ms': [rng.randrange(len(v.models)) + 1], 'how': rng.choice(['device', 'device', 'model', 'wrap'])}
            plan = {}
            if via != 'mapped' and rng.random() < .3:
                plan = fault(rng, via, rng.choice([0, 0, 1, 2]))
            if rng.random() < .5:
                c = [change(rng, v, rng.choice([0, 0, 1])) for _ in range(rng.choice([1, 3, 8]))]
                plan['chg'] = [x for x in c if x]
            if plan:
                o['plan'] = plan
            ops.append(o)
        if via != 'mapped':
            ops.append({'op': 'read', 'ms': [1], 'how': 'device'})
        out.append(scenario('%s%d' % (name, n), via, list(v.defs.values()), v.segs(), ops))
    return out


def long_reads(rng, count):
    out = []
    for n in range(count):
        via = rng.choice(['rtu', 'tcp', 'mapped'] if n % 4 else ['rtu', 'tcp'])
        mid = ids(rng, 1)[0]
        d = long_definition(rng, mid)
        v = device(rng, defs=[d], repeat=.2, unknown=.1)
        asks = [-(-m[2] // 125) for m in v.models if m[0] == mid][0]
        sf = [m[1] + p['off'] for m in v.models if m[0] == mid for p in d['fp'] if p['id'] == 'X_SF']
        ops = [{'op': 'scan', 'wrap': rng.random() < .2}]
        if rng.random() < .7:
            ops.append({'op': 'read', 'ms': [1], 'how': 'device'})
        for _ in range(rng.choice([1, 2, 3])):
            o = {'op': 'read', 'ms': [1], 'how': rng.choice(['device', 'model'])}
            plan = {}
            if via != 'mapped' and rng.random() < .5:
                plan = fault(rng, via, rng.choice([0, 1, asks - 1, asks - 1, asks]))
            plan['chg'] = [c for c in (change(rng, v, rng.choice([0, 1, 1, 2, 3])) for _ in range(rng.choice([0, 4, 20]))) if c]
            if rng.random() < .5:
                plan['chg'].append({'at': rng.choice([0, 0, 1]), 'a': rng.choice(sf), 'w': [rng.choice([0, 1, 2, 65535, 65534, 0x8000])]})
            o['plan'] = plan
            ops.append(o)
        ops.append({'op': 'read', 'ms': [1], 'how': 'device'})
        out.append(scenario('lg%d' % n, via, list(v.defs.values()), v.segs(), ops))
    return out


# -- writing -----------------------------------------------------------------------------------------
def writes(rng, count, faults, name='wr'):
    out = []
    n = 0
    while n < count:
        via = rng.choice(['rtu', 'tcp', 'rtu', 'tcp', 'mapped'] if not faults else ['rtu', 'tcp'])
        if rng.random() < .12:
            v = device(rng, defs=[long_definition(rng, ids(rng, 1)[0])], repeat=.2, unknown=.1)
        else:
            v = device(rng, sized=rng.choice([None, 3, 6, 8]), unknown=.1)
        refs = v.refs()
        if not refs:
            continue
        wrap = rng.random() < .4
        segs = [{'a': v.base, 'w': list(v.words)}]
        unread = []

        def reread(m, **kw):
            """the scale factors in force are those of the last read"""
            for c in unread:
                for i, x in enumerate(c['w']):
                    v.words[c['a'] + i - v.base] = x
            del unread[:]
            return dict({'op': 'read', 'ms': [m + 1], 'how': 'device'}, **kw)
        ops = [{'op': 'scan', 'wrap': wrap}, reread(0)]
        for _ in range(rng.choice([1, 2, 3])):
            m = rng.choice(refs)[0]
            if not faults and rng.random() < .5:
                # the device changes, and the change is read at once, later or never
                c = [x for x in (change(rng, v, 0) for _ in range(rng.choice([1, 3, 6]))) if x]
                unread += c
                if rng.random() < .6:
                    ops.append(reread(m, plan={'chg': c}))
                else:
                    ops.append({'op': 'write', 'ms': [m + 1], 'how': 'model', 'plan': {'chg': c}})
            mine = [r for r in refs if r[0] == m]
            start = rng.randrange(len(mine))
            # neighbours, or anywhere
            chosen = mine[start:start + rng.choice([1, 2, 3, 4])] if rng.random() < .5 else rng.sample(mine, min(len(mine), rng.choice([1, 2, 3, 5])))
            if rng.random() < .2:
                chosen = mine[:12]
            for r in chosen + ([chosen[0]] if rng.random() < .2 else []):
                p = v.models[r[0]][3][r[1]][r[2]][0]
                ops.append({'op': 'set', 'm': r[0] + 1, 'b': r[1] + 1, 'p': r[2] + 1, 'v': assigned(rng, p, v.scale(r[0], r[1], p)),
                            'how': rng.choice(['value', 'attr', 'item'])})
                if rng.random() < .15:
                    ops.append({'op': 'get', 'm': r[0] + 1, 'b': r[1] + 1, 'p': r[2] + 1, 'how': rng.choice(['value', 'attr', 'item'])})
            if rng.random() < .15 and not unread:
                ops.append({'op': 'read', 'ms': [m + 1], 'how': 'model'})
                if faults and rng.random() < .5:
                    ops[-1]['plan'] = fault(rng, via, 0)
            for k in range(rng.choice([1, 2, 2, 3])):
                if rng.random() < .2:
                    r = rng.choice(chosen)
                    o = {'op': 'pwrite', 'm': r[0] + 1, 'b': r[1] + 1, 'p': r[2] + 1}
                else:
                    o = {'op': 'write', 'ms': [m + 1], 'how': rng.choice(['model', 'wrap'])}
                if faults and rng.random() < .5:
                    o['plan'] = fault(rng, via, rng.choice([0, 0, 1, 1, 2, 3]))
                    if o['plan'].get('replies') and rng.random() < .3:
                        o['plan']['then'] = {'base': 'exc', 'code': 4}
                ops.append(o)
                if rng.random() < .2:
                    r = rng.choice(chosen)
                    p = v.models[r[0]][3][r[1]][r[2]][0]
                    ops.append({'op': 'set', 'm': r[0] + 1, 'b': r[1] + 1, 'p': r[2] + 1, 'v': assigned(rng, p, v.scale(r[0], r[1], p)),
                                'how': 'value'})
            ops.append({'op': 'write', 'ms': [m + 1], 'how': 'model'})
            if rng.random() < .6:
                ops.append(reread(m))
        out.append(scenario('%s%d' % (name, n), via, list(v.defs.values()), segs, ops))
        n += 1
    return out


# -- names -------------------------------------------------------------------------------------------
def names(rng, count):
    out = []
    for n in range(count):
        via = rng.choice(['rtu', 'tcp', 'mapped'])
        mids = ids(rng, rng.choice([1, 2, 3, 4]))
        defs = [definition(rng, i, name=rng.choice([None, 'inverter', 'inverter', 'meter', 'm%d' % i, ident(rng), 'Inverter']), size=rng.choice([1, 2, 4]))
                for i in mids]
        v = Dev(rng, defs)
        order = mids + [rng.choice(mids) for _ in range(rng.choice([0, 1, 2]))] + rng.choice([[], [4242], [4242, 4242]])
        rng.shuffle(order)
        for mid in order:
            v.add(mid, n=rng.choice([0, 1, 2, 3]))
        v.end()
        ops = [{'op': 'scan', 'wrap': True}, {'op': 'wrap'}, {'op': 'read', 'ms': [1], 'how': 'device'}]
        refs = v.refs()
        for r in rng.sample(refs, min(len(refs), 8)):
            p = v.models[r[0]][3][r[1]][r[2]][0]
            ref = {'m': r[0] + 1, 'b': r[1] + 1, 'p': r[2] + 1}
            ops.append(dict(ref, op='get', how=rng.choice(['attr', 'item'])))
            if rng.random() < .6:
                ops.append(dict(ref, op='set', v=assigned(rng, p, v.scale(r[0], r[1], p)), how=rng.choice(['attr', 'item'])))
                ops.append(dict(ref, op='get', how=rng.choice(['attr', 'item'])))
            if rng.random() < .3:
                ops.append({'op': rng.choice(['write', 'read']), 'ms': [r[0] + 1], 'how': 'wrap'})
        ops.append({'op': 'wrap'})
        out.append(scenario('na%d' % n, via, defs, v.segs(), ops))
    return out


# -- many of everything ---------------------------------------------------------------------------------
def tiny(mid, name, fl=1, wide=1):
    """a model type whose repeating block takes hardly any room"""
    pnt = lambda i, off, t, n: {'id': i, 'off': off, 't': t, 'len': n, 'sf': NONE}
    return {'id': mid, 'name': name, 'fl': fl, 'fp': [pnt('A', 0, 'uint16', 1)][:fl], 'rep': True, 'rl': wide, 'rn': 'repeating', 'len': fl,
            'rp': [pnt('X', 0, 'int16', 1)] + ([pnt('Y', 1, 'uint32', 2)] if wide > 2 else [])}


def many(rng, count):
    """models with hundreds of blocks, and devices with hundreds of models"""
    out = []
    for n in range(count):
        mid, other = ids(rng, 2)
        wide = rng.choice([1, 1, 3])
        d = tiny(mid, rng.choice(['row', 'model_%d' % mid]), rng.choice([0, 1]), wide)
        d2 = definition(rng, other, size=1, rep=False)
        kind = n % 3
        via = rng.choice(['mapped', 'mapped', 'tcp'])
        v = Dev(rng, [d, d2], rng.choice([0, 40000, 50000]))
        ops = [{'op': 'scan', 'wrap': kind == 1}]
        loads = []
        if kind == 0:
            # as many as a length can ask for, within reason
            k = rng.choice([258, 300, 520, 1030])
            loads = [{'mid': mid, 'addr': 40002, 'len': d['fl'] + d['rl'] * k, 'client': n % 2 == 0}]
            k = rng.choice([129, 200, 257])
            v.add(mid, n=k).end()
            ops += [{'op': 'read', 'ms': [1], 'how': 'device'}]
            for b in rng.sample(range(2, k + 2), 3) + [k + 1, k]:
                ref = {'m': 1, 'b': b, 'p': 1}
                ops += [dict(ref, op='get', how='value'), dict(ref, op='set', v=assigned(rng, v.models[0][3][b - 1][0][0], None), how='value')]
            ops += [{'op': 'write', 'ms': [1], 'how': 'model'}, {'op': 'read', 'ms': [1], 'how': 'model'}]
        elif kind == 1:
            # instances by the dozen, with blocks by the hundred
            for k in range(rng.choice([12, 40])):
                v.add(rng.choice([mid, mid, other]), n=rng.choice([0, 1]))
            v.add(mid, n=rng.choice([102, 130]))
            v.end()
            at = [i for i, m in enumerate(v.models) if m[0] == mid][-1]
            ops += [{'op': 'wrap'}, {'op': 'read', 'ms': [at + 1], 'how': 'wrap'}]
            for b in (2, 10, 11, len(v.models[at][3])):
                ops.append({'op': 'get', 'm': at + 1, 'b': b, 'p': 1, 'how': rng.choice(['attr', 'item'])})
        else:
            for k in range(rng.choice([101, 130, 260])):
                v.add(rng.choice([other, mid, 4711]), n=0, ln=rng.choice([0, 1, 2]) if rng.random() < .1 else None)
            v.end()
            ops += [{'op': 'scan', 'fresh': False}]
        out.append(scenario('my%d' % n, via, [d, d2], v.segs(), ops, loads))
    return out


# -- other devices in use at the same time -------------------------------------------------------------
def renumbered(s, new):
    """the scenario with other model ids"""
    s = json.loads(json.dumps(s))
    for d in s['cfg']['defs']:
        i = new.get(d['id'], d['id'])
        if d['name'] == 'model_%d' % d['id']:
            d['name'] = 'model_%d' % i
        d['id'] = i
    w = s['cfg']['segs'][0]['w']
    a = 2
    while a + 1 < len(w) and w[a] != 65535:
        w[a] = new.get(w[a], w[a])
        a += 2 + w[a + 1]
    return s


def renamed(rng, s):
    """the scenario with other names in the definitions"""
    s = json.loads(json.dumps({k: s[k] for k in s if k != 'peer'}))
    for d in s['cfg']['defs']:
        if d['id'] == 1:
            continue
        for ps in rng.choice([[d['fp']], [d['rp']], [d['fp'], d['rp']]]):
            ps = [p for p in ps if p['t'] not in ('sunssf', 'pad')]
            if rng.random() < .5:
                names = [p['id'] for p in ps]
                rng.shuffle(names)
                for p, x in zip(ps, names):
                    p['id'] = x
            else:
                for p in ps:
                    if rng.random() < .6:
                        p['id'] += 'v'
        if rng.random() < .2:
            d['name'] += 'v'
        if d['rep'] and rng.random() < .3:
            d['rn'] = 'row'
    return s


def peers(rng, sc, part):
    """in some of the scenarios another device, with other definitions for the same ids, is used in between"""
    for s in sc:
        if rng.random() >= part:
            continue
        if rng.random() < .3:
            s['peer'] = dict(renamed(rng, s), lead=rng.choice([0, 0, 1, 1, 2, len(s['ops'])]))
            continue
        p = rng.choice(sc)
        mine = [d['id'] for d in s['cfg']['defs'] if d['id'] != 1]
        theirs = [d['id'] for d in p['cfg']['defs'] if d['id'] != 1]
        rng.shuffle(theirs)
        new = dict(zip(theirs, mine))
        for i in theirs[len(mine):]:
            if i in mine:
                new = None      # no room for it
                break
        if new is not None:
            p = renumbered({k: p[k] for k in p if k != 'peer'}, new)
            p['lead'] = rng.choice([0, 0, 1, 1, 2, len(p['ops'])])
            s['peer'] = p
    return sc


# -- judging -----------------------------------------------------------------------------------------
def faulty(s):
    return any((o.get('plan') or {}).get('replies') or (o.get('plan') or {}).get('conn') for o in s['ops'])


def props_of(clause, trace, at, scenario):
    kind, _, what = clause.partition('.')
    ev = trace['ev'][:at]
    op = [e for e in ev if e['e'] == 'call'][-1:] or [{'op': 'load'}]
    op = op[0]['op']
    failed = faulty(scenario)
    # after a fault, the result is to be that without it
    again = {'C25'} if failed and any(e.get('kind') == 'sserr' for e in ev) else set()
    if kind == 'scan':
        ps = {'C12'} | again
        if what in ('untyped', 'swallowed', 'refused'):
            ps.add('C25')
        return ps
    if kind == 'lay':
        return {'C13', 'C12'} if op == 'scan' else {'C13'}
    if kind == 'read':
        if what in ('func', 'long', 'range', 'split'):
            return {'C14'}
        if what == 'partial':
            return {'C14', 'C25'}
        if what in ('value', 'scaled'):
            return ({'C15', 'C16'} if any(e.get('op') == 'set' for e in ev) else {'C15'}) | again
        if what == 'missing':
            return {'C14', 'C15'} | again
        return {'C14', 'C15', 'C25'} if not failed or what == 'refused' else {'C14', 'C25'}
    if kind in ('set', 'write'):
        ps = {'C16'} | (again if kind == 'write' else set())
        if kind == 'write' and what in ('untyped', 'swallowed'):
            ps |= {'C25', 'C17'}
        if failed:
            ps.add('C17')
            if what == 'refused':
                ps.add('C25')
        if kind == 'set' and [o for o in scenario['ops'] if o['op'] == 'set' and o.get('how') != 'value']:
            ps.add('C18')
        return ps
    if kind == 'get':
        return {'C18', 'C16', 'C15'}
    if kind in ('wrap', 'names'):
        return {'C18'}
    if kind == 'show' or (op == 'show' and clause in ('req.unasked', 'ret.hang')):
        return {'C27'}
    if clause == 'req.unasked':
        return {'C16', 'C18'}
    if clause == 'ret.hang':
        return {'scan': {'C12', 'C25'}, 'read': {'C14', 'C25'}, 'write': {'C16', 'C17', 'C25'}, 'pwrite': {'C16', 'C17', 'C25'},
                'wrap': {'C18'}, 'get': {'C18'}, 'set': {'C16'}}.get(op, {'C13'})
    return None


# -- behaviours of the design models -------------------------------------------------------------------
def lost(rng, via, how):
    if how == 'unacked':
        return {'ops': [['xor', -1, 4]]} if via == 'rtu' else {'ops': [['trunc', 9]], 'end': rng.choice(['timeout', 'eof'])}
    r = fault(rng, via, 0)
    while 'replies' not in r or any(k in r['replies'][0] for k in ('ops', 'late')):
        r = fault(rng, via, 0)
    return r['replies'][0]


def from_scan_script(rng, n, x):
    via = rng.choice(['rtu', 'tcp'])
    ops = []
    for c in x['calls']:
        o = {'op': 'scan', 'fresh': c['fresh'], 'plan': {'replies': []}}
        asked = 0
        for h in c['how']:
            if h in ('go', 'stop'):
                asked += 1
                if h == 'stop':
                    o['stop'] = asked
            else:
                o['plan']['replies'].append({} if h == 'ok' else lost(rng, via, h))
        if asked and 'stop' not in o:
            o['stop'] = 99
        if rng.random() < .5:
            o['delay'] = rng.choice([1, 500000, rng.randrange(1, 3000000)])
        ops.append(o)
    ops.append({'op': 'scan', 'fresh': False})
    return scenario('ms%d' % n, via, x['defs'], x['segs'], ops)


def from_point_script(rng, n, calls):
    """the model's registers, or the same with 31 registers for each one of the model"""
    via = rng.choice(['rtu', 'tcp'])
    f = rng.choice([1, 31])

    def pnt(i, off, t, ln, sf):
        return {'id': i, 'off': f * (off + ln) - ln, 't': t, 'len': ln, 'sf': sf}
    by = {'k': 'pt', 'v': 0, 'n': 'S'}
    d = {'id': 64001, 'len': 11 * f, 'name': 'm', 'fl': 8 * f, 'rep': True, 'rl': 3 * f, 'rn': 'repeating',
         'fp': [pnt('S', 0, 'sunssf', 1, NONE), pnt('A', 1, 'int16', 1, by), pnt('D', 2, 'uint16', 1, dict(NONE, k='const', v=1)),
                pnt('B', 3, 'uint32', 2, NONE), pnt('C', 5, 'uint32', 2, NONE)],
         'rp': [pnt('E', 0, 'uint16', 1, by), pnt('F', 1, 'uint32', 2, NONE)]}
    start = {0: [1], 1: [3], 2: [5], 3: [0, 7], 5: [0, 9], 8: [6], 9: [0, 8]}
    w = [0] * (11 * f)

    def spot(off):
        return f * (off + len(start[off])) - len(start[off])
    for off, x in start.items():
        w[spot(off):spot(off) + len(x)] = x
    ops = [{'op': 'scan'}]
    for c in calls:
        o = {k: c[k] for k in ('op', 'm', 'b', 'p', 'ms', 'v') if k in c}
        if 'v' in o:
            o['v'] = dict(o['v'], form='int')
        o['how'] = rng.choice(['model', 'device']) if o['op'] == 'read' else 'model' if o['op'] == 'write' else 'value'
        plan = {'replies': [], 'chg': []}
        for h in c['how']:
            if h.startswith('chg'):
                x = h.split()[1:]
                plan['chg'].append({'at': len(plan['replies']) + 1, 'a': 40004 + spot(int(x[0])), 'w': [int(y) for y in x[1:]]})
            else:
                plan['replies'].append({} if h == 'ok' else lost(rng, via, h))
        if c['how']:
            o['plan'] = plan
        ops.append(o)
    ops += [{'op': 'write', 'ms': [1], 'how': 'model'}, {'op': 'read', 'ms': [1], 'how': 'model'}]
    return scenario('mp%d' % n, via, [d], [{'a': 40000, 'w': [0x5375, 0x6e53, 64001, 11 * f] + w + [65535]}], ops)


SHARE = {'C12': {'scans': 5}, 'C13': {'layouts': 8}, 'C14': {'long_reads': 3, 'reads': 2}, 'C15': {'reads': 4},
         'C16': {'writes': 3}, 'C17': {'failing': 3}, 'C18': {'names': 4}, 'C25': {'failing': 2, 'scans': 3, 'reads': 2, 'long_reads': 2}}
BASE = {'scans': 200, 'layouts': 60, 'reads': 100, 'long_reads': 40, 'writes': 100, 'failing': 100, 'names': 50}
VIEW = dict(extra='VIEW View')


def design(run):
    """the specification of the scan, the values or the points, and the behaviours it generates"""
    big = run.thorough
    sc = []
    rng = random.Random(run.seed)
    if run.prop in ('C12', 'C13', 'C18', 'C25'):
        base = dict(Scans=3, Faults=4 if big else 2, Mut='none', Record=False)
        run.mc('MCScan', base, ['NoViolation', 'Repeatable'], label='scan, %d scans, %d faults' % (base['Scans'], base['Faults']), **VIEW)
        run.mcs([(('MCScan', dict(base, Scans=2, Faults=1, Mut=mut), ['NoViolation'], 'scan, design error ' + mut, ['NoViolation']), VIEW)
                 for mut in ('order', 'beyond', 'keep', 'step', 'swallow', 'forget', 'leak', 'marker', 'giveup', 'deaf', 'skip', 'rush', 'hurry',
                             'doze', 'once')])
        r = run.mc('MCScan', dict(base, Record=True), ['NoViolation', 'PrintScripts'], label='scan, behaviours', depth=90,
                   simulate=2500 if big else 250, seed=run.seed, workers=1)
        sc += [from_scan_script(rng, n, json.loads(p[7:])) for n, p in enumerate(r.prints) if p.startswith('SCRIPT ')]
    if run.prop in ('C14', 'C16', 'C17', 'C25'):
        base = dict(Calls=4, Faults=1, Changes=1, Mut='none', Record=False)
        both = ['NoViolation', 'Pending']
        run.mc('MCPoints', base, both, label='points, 4 calls, a fault, a change', **VIEW)
        run.mc('MCPoints', dict(base, Calls=6 if big else 5, Faults=2, Changes=0), both, label='points, more calls and faults', **VIEW)
        if big:
            run.mc('MCPoints', dict(base, Calls=5), both, label='points, 5 calls, a fault, a change', **VIEW)
            run.mc('MCPoints', dict(base, Faults=2, Changes=2), both, label='points, 4 calls, 2 faults, 2 changes', timeout=1500, **VIEW)
        run.mcs([(('MCPoints', dict(base, Mut=mut), ['NoViolation'], 'points, design error ' + mut, ['NoViolation']), VIEW)
                 for mut in ('tear', 'long', 'half', 'lazy', 'stalesf', 'merge', 'fixedonly', 'early', 'never', 'drop', 'swallow', 'clean', 'resend')])
        r = run.mc('MCPoints', dict(base, Calls=8, Faults=3, Changes=3, Record=True), ['NoViolation', 'PrintScripts'],
                   label='points, behaviours', depth=120, simulate=2500 if big else 250, seed=run.seed, workers=1)
        sc += [from_point_script(rng, n, json.loads(p[7:])) for n, p in enumerate(r.prints) if p.startswith('SCRIPT ')]
    if run.prop in ('C15', 'C16'):
        base = dict(Step16=16 if big else 64, Octets={0, 1, 2, 127, 128, 254, 255} if big else {0, 1, 127, 128, 255}, Mut='none')
        run.mc('MCCodec', base, ['RoundTrip', 'ScaledSelf'], label='point types: decoding and encoding')
        for mut in ('signed', 'little'):
            run.mc('MCCodec', dict(base, Mut=mut), ['RoundTrip'], label='point types, design error ' + mut, killed_by=['RoundTrip'])
    run.notes['model_behaviours_replayed'] = len(sc)
    return sc


def main(run):
    rng = random.Random(run.seed * 7919 + 12)
    sc = design(run)
    n = {k: v * SHARE[run.prop].get(k, 1) * (8 if run.thorough else 1) for k, v in BASE.items()}
    sc += (scans(rng, n['scans']) + layouts(rng, n['layouts']) + peers(rng, reads(rng, n['reads']), .25) + long_reads(rng, n['long_reads'])
           + peers(rng, writes(rng, n['writes'], False), .25) + peers(rng, writes(rng, n['failing'], True, 'wf'), .1)
           + peers(rng, names(rng, n['names']), .4) + many(rng, 24 if run.thorough else 6))
    size = 2500
    for i in range(0, len(sc), size):
        run.conform('sunspecdrv', sc[i:i + size], 'SunSpecTrace', props_of, procs=6)
    run.assumptions += ['definitions list their points by ascending offset; point and model names do not collide with attributes of the '
                        'library; scale factors belong to integer points', 'scaled values have at most 15 significant digits']
