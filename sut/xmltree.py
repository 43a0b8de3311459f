"""Element trees [g, a, x, k] as text and back; no part of the code under test."""
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape, quoteattr


def to_xml(e):
    s = '<' + e['g'] + ''.join(' %s=%s' % (k, quoteattr(v)) for k, v in e['a'])
    if not e['x'] and not e['k']:
        return s + '/>'
    return s + '>' + escape(e['x']) + ''.join(to_xml(c) for c in e['k']) + '</' + e['g'] + '>'


def document(e, style):
    """style: how the same document is written down"""
    s = to_xml(e)
    if style == 'decl':
        s = '<?xml version="1.0" encoding="UTF-8"?>\n<!-- a comment -->\n' + s
    elif style == 'space':
        s = s.replace('><', '>\n  <')
    elif style == 'ascii':
        s = s.encode('ascii', 'xmlcharrefreplace').decode()
    return encoded(s, style)


def encoded(s, style):
    """a document without declaration, in the encoding of the style"""
    if style == 'latin':
        return ('<?xml version="1.0" encoding="ISO-8859-1"?>' + s).encode('iso-8859-1', 'xmlcharrefreplace')
    if style == 'utf16':
        return ('<?xml version="1.0" encoding="UTF-16"?>' + s).encode('utf-16')
    if style == 'bom':
        return s.encode('utf-8-sig')
    return s.encode('utf-8')


def tree(e):
    """an ElementTree element; white space around children does not count"""
    x = e.text or ''
    kids = [tree(c) for c in e]
    if kids and not x.strip():
        x = ''
    return {'g': e.tag, 'a': [[k, v] for k, v in e.attrib.items()], 'x': x, 'k': kids}


def parse(text):
    return tree(ET.fromstring(text))
