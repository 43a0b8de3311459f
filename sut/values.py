"""Values of the implementation as records of the specification, and back; and model definition files."""
import math
import re
from xml.sax.saxutils import escape, quoteattr


def rec(t, s=0, d=(), e=0, c=()):
    return {'t': t, 's': s, 'd': list(d), 'e': e, 'c': list(c)}


def number(t, s, digits, e, c=()):
    digits = digits.lstrip('0')
    n = len(digits.rstrip('0'))
    e += len(digits) - n
    digits = digits[:n]
    if not digits:
        e = 0
        if t == 'i':
            s = 0
    return rec(t, s, [int(x) for x in digits], e, c)


def val(x):
    if x is None:
        return rec('n')
    if type(x) is int:
        return number('i', int(x < 0), str(abs(x)), 0)
    if type(x) is float:
        if x != x:
            return rec('nan')
        s = int(math.copysign(1, x) < 0)
        if x in (float('inf'), float('-inf')):
            return rec('inf', s)
        m, e = ('%.14e' % abs(x)).split('e')
        c = []
        if x:
            a, b = abs(x).as_integer_ratio()
            k = 1 - b.bit_length()
            while a % 2 == 0:
                a //= 2
                k += 1
            c = [a, k] if a < 2 ** 31 else []
        return number('f', s, m.replace('.', ''), int(e) - 14, c)
    if isinstance(x, str):
        return rec('s', c=[ord(ch) for ch in x])
    return rec('other:%s' % type(x).__name__)


def literal(v):
    """the Python value a scenario assigns"""
    if v['t'] == 's':
        return ''.join(chr(c) for c in v['c'])
    if v['t'] == 'f':
        x = math.ldexp(v['c'][0], v['c'][1]) if v['c'] else 0.0
        return -x if v['s'] else x
    digits = ''.join(map(str, v['d'])) or '0'
    sign = '-' if v['s'] else ''
    form = v.get('form', 'int')
    if v['e'] >= 0 and form in ('int', 'str', 'floatint'):
        n = int(sign + digits + '0' * v['e'])
        return str(n) if form == 'str' else float(n) if form == 'floatint' else n
    text = sign + digits + 'e%d' % v['e']
    if form == 'str':
        return plain(sign, digits, v['e'])
    return float(text)


def plain(sign, digits, e):
    if e >= 0:
        return sign + digits + '0' * e
    digits = digits.rjust(1 - e, '0')
    return sign + digits[:e] + '.' + digits[e:]


# -- printed lines ---------------------------------------------------------------------------------
def codes(s):
    return [ord(c) for c in s or '']


def read_number(tok):
    """the piece as a number in decimal and in hexadecimal notation"""
    none = val(None)
    hexa = val(int(tok, 16)) if re.match(r'0[xX][0-9a-fA-F]+$', tok) else none
    dec = none
    if hexa is none:
        try:
            dec = val(int(tok))
        except ValueError:
            try:
                dec = val(float(tok))
            except ValueError:
                pass
    return dec, hexa


def line(text):
    toks = []
    for t in text.split():
        dec, hexa = read_number(t)
        if dec['t'] != 'n' or hexa['t'] != 'n':
            toks.append({'n': codes(t), 'dec': dec, 'hex': hexa})
    return {'n': [c for c in codes(text) if c not in (9, 32, 58, 40, 41)], 'toks': toks}


# -- definition files ------------------------------------------------------------------------------
def point_xml(p):
    a = ' id=%s offset="%d" type=%s' % (quoteattr(p['id']), p['off'], quoteattr(p['t']))
    if p['t'] == 'string' or p.get('showlen'):
        a += ' len="%d"' % p['len']
    sf = p['sf']
    if sf['k'] == 'const':
        a += ' sf="%d"' % sf['v']
    elif sf['k'] == 'pt':
        a += ' sf=%s' % quoteattr(sf['n'])
    for k in ('units', 'access', 'mandatory'):
        if p.get(k):
            a += ' %s=%s' % (k, quoteattr(p[k]))
    return '<point%s />' % a


def definition_xml(d):
    s = '<sunSpecModels v="1"><model id="%d" len="%d"' % (d['id'], d['len'])
    if d['name'] != 'model_%d' % d['id']:
        s += ' name=%s' % quoteattr(d['name'])
    s += '>'
    if d.get('fixed', True):
        s += '<block%s len="%d">' % (' type="fixed"' if d['id'] % 2 else '', d['fl'])
        s += ''.join(map(point_xml, d['fp'])) + '</block>'
    if d['rep']:
        s += '<block type="repeating" len="%d"%s>' % (d['rl'], '' if d['rn'] == 'repeating' else ' name=%s' % quoteattr(d['rn']))
        s += ''.join(map(point_xml, d['rp'])) + '</block>'
    s += '</model>'
    labels = [(p['id'], p['label']) for p in d['fp'] + d['rp'] if p.get('label')]
    if labels or d.get('label'):
        s += '<strings id="%d" locale="en">' % d['id']
        if d.get('label'):
            s += '<model><label>%s</label></model>' % escape(d['label'])
        for i, text in labels:
            s += '<point id=%s><label>%s</label></point>' % (quoteattr(i), escape(text))
        s += '</strings>'
    return s + '</sunSpecModels>'
