"""Histories of operations on Modbus maps."""
import contextlib
import io
import os
from xml.sax.saxutils import escape, quoteattr
import xml.etree.ElementTree as ET

from common import Hang, limit, main, octets
from xmltree import encoded
import sunspec.core.modbus.mbmap as mb
import sunspec.core.modbus.client as mc
import sunspec.core.client as sc
import sunspec.core.util as util

SCRATCH = os.environ.get('VF_SCRATCH', '/tmp')


def num(x):
    return x if type(x) is int and abs(x) < 2 ** 31 else -999999


def text(x):
    return '~' if x is None else x if isinstance(x, str) else '?%r' % (x,)


def obs(m):
    return {'base': num(m.base_addr), 'func': num(m.func), 'ids': [text(m.ns), text(m.lid), text(m.mapid), text(m.time)],
            'blk': [{'off': num(r.offset), 'cnt': num(r.count), 'acc': text(r.access), 'b': octets(r.data)}
                    for r in m.regs]}


def xml_of(doc):
    a = ''
    if doc['func'] != '~':
        a += ' func=' + quoteattr(doc['func'])
    if doc['addrtxt'] != '~':
        a += ' addr=' + quoteattr(doc['addrtxt'])
    for k, v in zip(('ns', 'lid', 'mapid', 'time'), doc['ids']):
        if v != '~':
            a += ' %s=%s' % (k, quoteattr(v))
    s = '<mbmap%s>' % a
    for el in doc['els']:
        a = ''
        if el['off'] != -1:
            a += ' offset="%d"' % el['off']
        if el['len'] != 0:
            a += ' len="%d"' % el['len']
        if el['typ'] != '~':
            a += ' type=' + quoteattr(el['typ'])
        if el['acc'] != '~':
            a += ' access=' + quoteattr(el['acc'])
        if el['has']:
            s += '<regs%s>%s</regs>' % (a, escape(el['txt']))
        else:
            s += '<regs%s/>' % a
    s += '</mbmap>'
    if doc.get('notxml'):
        s = s[:-3]
    return s


def doc_event(doc):
    return {'func': doc['func'], 'addr': doc['addr'], 'badaddr': doc.get('badaddr', False),
            'notxml': bool(doc.get('notxml')), 'ids': doc['ids'],
            'els': [{'off': e['off'], 'len': e['len'], 'typ': e['typ'], 'acc': e['acc'], 'has': e['has'],
                     'txt': [ord(c) for c in e['txt']] if e['has'] else [],
                     'fl': e.get('fl', {'bad': True, 'zero': False, 's': 0, 'e': 0, 'bits': []})} for e in doc['els']]}


def run(s):
    maps = {}
    dev = {}
    ev = []
    scratch = os.path.join(SCRATCH, 'map')
    os.makedirs(scratch, exist_ok=True)
    nfile = [0]

    def path_of(textual, style=None):
        nfile[0] += 1
        p = os.path.join(scratch, 'm%d.xml' % nfile[0])
        with open(p, 'wb') as f:
            f.write(encoded(textual, style))
        return p

    for o in s['ops']:
        op = o['op']
        via = 'map'
        e = {'e': op, 'm': o['m'], 'kind': 'ok'}
        if op not in ('load', 'new', 'hex') and o['m'] not in maps:
            continue
        if op == 'compare' and o['m2'] not in maps:
            continue
        if op == 'put' and maps[o['m']].regs and o['off'] < maps[o['m']].regs[-1].offset + maps[o['m']].regs[-1].count:
            # would overlap: an earlier addition was refused or placed elsewhere
            continue
        try:
            with limit(20), contextlib.redirect_stdout(io.StringIO()):
                if op == 'load':
                    x = xml_of(o['doc'])
                    e['doc'] = doc_event(o['doc'])
                    how = o.get('how', 'file')
                    if how in ('dev', 'devlist', 'client', 'clientlist'):
                        via = how[:-4] if how.endswith('list') else how
                        p = path_of(x, o.get('style'))
                        pl = None
                        if how.endswith('list'):
                            pl = util.PathList()
                            pl.add(os.path.dirname(p))
                            p = os.path.basename(p)
                        if via == 'dev':
                            d = mc.ModbusClientDeviceMapped(1, p, pl)
                            m = d.modbus_map
                        else:
                            d = sc.ClientDevice(sc.MAPPED, 1, p, pl)
                            m = d.modbus_device.modbus_map
                        dev[o['m']] = d
                    else:
                        dev.pop(o['m'], None)
                        m = mb.ModbusMap(slave_id=1)
                        if how == 'element' and not o['doc'].get('notxml'):
                            m.from_xml(element=ET.fromstring(x))
                        elif how == 'pathlist':
                            p = path_of(x, o.get('style'))
                            pl = util.PathList()
                            pl.add(os.path.dirname(p))
                            m.from_xml(os.path.basename(p), pl)
                        else:
                            m.from_xml(path_of(x, o.get('style')))
                    maps[o['m']] = m
                elif op == 'hex':
                    e['good'] = o['good']
                    e['bytes'] = o['bytes']
                    m = mb.ModbusMap(slave_id=1)
                    m.from_hex(path_of(o['text']))
                    maps[o['m']] = m
                    dev.pop(o['m'], None)
                elif op == 'new':
                    ids = o['ids']
                    e.update(func=o['func'], base=o['base'], ids=ids)
                    m = mb.ModbusMap(1, o['func'] if o['func'] != '~' else 'holding', o['base'],
                                     *[None if x == '~' else x for x in ids])
                    maps[o['m']] = m
                    dev.pop(o['m'], None)
                elif op == 'add':
                    e.update(addr=o['addr'], off=o['off'], n=o['n'], acc=o['acc'])
                    kw = {'count': o['n'], 'access': o['acc']}
                    if o['addr'] != -1:
                        kw['addr'] = o['addr']
                    else:
                        kw['offset'] = o['off']
                    maps[o['m']].regs_add(**kw)
                elif op == 'put':
                    e.update(off=o['off'], b=o['b'], acc=o['acc'])
                    maps[o['m']].regs.append(mb.ModbusMapRegs(o['off'], len(o['b']) // 2, bytes(o['b']), o['acc']))
                elif op == 'read':
                    e.update(addr=o['addr'], n=o['n'], op=o['fc'], data=[])
                    t = maps[o['m']]
                    if o['m'] in dev:
                        t = dev[o['m']]
                        via = 'dev'
                        if isinstance(t, sc.ClientDevice):
                            if o['fc']:
                                t = t.modbus_device
                            else:
                                via = 'client'
                    r = t.read(o['addr'], o['n'], o['fc']) if o['fc'] else t.read(o['addr'], o['n'])
                    e['data'] = octets(r)
                elif op == 'write':
                    e.update(addr=o['addr'], data=o['data'])
                    t = maps[o['m']]
                    if o['m'] in dev:
                        t = dev[o['m']]
                        via = 'client' if isinstance(t, sc.ClientDevice) else 'dev'
                    t.write(o['addr'], bytes(o['data']))
                elif op == 'save':
                    e.update(m2=o['m2'], nodata=o['nodata'], ne=False, ne2=False, obs2=obs(maps[o['m']]))
                    parent = ET.Element('wrap') if o.get('parent') else None
                    el = maps[o['m']].to_xml(parent, no_data=o['nodata'])
                    m2 = mb.ModbusMap(1)
                    if o.get('how') == 'element':
                        m2.from_xml(element=el)
                    else:
                        m2.from_xml(path_of(ET.tostring(el).decode('us-ascii')))
                    e['obs2'] = obs(m2)
                    e['ne'] = bool(maps[o['m']].not_equal(m2))
                    e['ne2'] = bool(m2.not_equal(maps[o['m']]))
                    maps[o['m2']] = m2
                    dev.pop(o['m2'], None)
                elif op == 'compare':
                    e.update(m2=o['m2'], ne=False)
                    e['ne'] = bool(maps[o['m']].not_equal(maps[o['m2']]))
        except Hang:
            e['kind'] = 'hang'
        except mb.ModbusMapError:
            e['kind'] = 'maperr'
        except mc.ModbusClientError:
            e['kind'] = 'err'
        except sc.SunSpecClientError:
            e['kind'] = 'sserr'
        except Exception as x:
            e['kind'] = 'other'
            e['what'] = '%s: %s' % (type(x).__name__, x)
        e['via'] = via
        if o['m'] in maps:
            e['obs'] = obs(maps[o['m']])
        else:
            e['obs'] = {'base': 0, 'func': 0, 'ids': ['~'] * 4, 'blk': []}
        ev.append(e)
    return {'cfg': {'n': len(ev)}, 'ev': ev}


if __name__ == '__main__':
    main(run)
