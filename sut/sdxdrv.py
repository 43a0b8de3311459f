"""SunSpec data records built, written and read through sunspec.core.data."""
import contextlib
import io
import os
import time
import xml.etree.ElementTree as ET

from common import Hang, limit, main
from values import val
from xmltree import document, parse, tree

from sunspec.core import data  # noqa: E402

NOW = [0]
real_time = time.time
time.time = lambda: NOW[0] if NOW[0] else real_time()


def opt(x):
    return [] if x is None else [x]


def text(x):
    return [] if x is None else [x if isinstance(x, str) else 'not text: %r' % (x,)]


def number(x):
    return [] if x is None else [x if type(x) is int else -99999]


def name(x):
    return '' if x is None else x if isinstance(x, str) else 'not text: %r' % (x,)


def record(r):
    return {'v': text(r.version), 'devs': [{
        'lid': text(d.logger_id), 'ns': text(d.namespace), 'id': text(d.device_id), 'if': text(d.ifc), 'man': text(d.man),
        'mod': text(d.mod), 'sn': text(d.sn), 't': text(d.timestamp), 'cid': text(d.cid), 'models': [{
            'id': name(m.model_id), 'ns': text(m.namespace), 'x': number(m.index), 'pts': [{
                'id': name(p.point_id), 'x': number(p.index), 'sf': number(p.sf), 't': text(p.time), 'val': text(p.value)}
                for p in m.point_data]} for m in d.model_data]} for d in r.device_data]}


def tables(doc):
    """which texts of a document are numbers, and which"""
    ints, nums = {}, {}

    def walk(e):
        for k, v in e['a']:
            if v.lstrip('-').isdigit():
                ints[v] = int(v)
        if e['x']:
            try:
                nums[e['x']] = val(float(e['x']))
            except ValueError:
                pass
        for c in e['k']:
            walk(c)
    walk(doc)
    return {'ints': sorted([k, v] for k, v in ints.items() if abs(v) < 2 ** 31), 'nums': sorted([k, v] for k, v in nums.items())}


def pyval(v):
    v = v[0]
    return v['text'] == 'True' if v['k'] == 'b' else int(v['text']) if v['k'] == 'i' else float(v['text']) if v['k'] == 'f' else v['text']


class Session(object):
    def __init__(self, s):
        self.s = s
        self.recs = []
        self.written = {}
        self.back = {}

    def build(self, b):
        r = data.SunSpecData()
        if b['v']:
            r.version = b['v'][0]
        return r

    def device(self, r, d):
        one = {k: (v[0] if v else None) for k, v in d.items() if k not in ('models', 'how')}
        kw = dict(logger_id=one['lid'], man=one['man'], mod=one['mod'], sn=one['sn'], cid=one['cid'], device_id=one['id'], ifc=one['if'],
                  namespace=one['ns'])
        t = one['t']
        if t is not None and d.get('how') != 'given':
            x = r.device_add(**kw)
            if d['how'] == 'now':
                NOW[0] = t
                x.timestamp_add()
                NOW[0] = 0
            elif d['how'] == 'frac':
                x.timestamp_add(t + .75)
            else:
                x.timestamp_add(t)
        else:
            x = r.device_add(timestamp=t, **kw)
        return x

    def model(self, d, m):
        mid = int(m['id']) if m.get('how') == 'int' else m['id']
        return d.model_add(mid, m['x'][0] if m['x'] else None, m['ns'][0] if m['ns'] else None)

    def point(self, m, p):
        kw = {}
        for k, n in (('x', 'index'), ('sf', 'sf'), ('t', 'time')):
            if p[k]:
                kw[n] = p[k][0]
        m.point_add(p['id'], pyval(p['val']) if p['val'] else None, **kw)

    def construct(self, bs):
        """all records side by side: one device of each in turn, one model of each device in turn"""
        self.recs = [self.build(b) for b in bs]
        todo = []
        for r, b in zip(self.recs, bs):
            todo.append([(self.device(r, d), d) for d in b['devs']])
        for group in todo:
            deep = max([len(d['models']) for _, d in group] or [0])
            for j in range(deep):
                ms = [(self.model(x, d['models'][j]), d['models'][j]) for x, d in group if j < len(d['models'])]
                for k in range(max([len(m['pts']) for _, m in ms] or [0])):
                    for x, m in ms:
                        if k < len(m['pts']):
                            self.point(x, m['pts'][k])

    def call(self, e, f):
        try:
            with limit(20), contextlib.redirect_stdout(io.StringIO()):
                f(e)
            e['kind'] = 'ok'
        except Hang:
            e['kind'] = 'hang'
        except data.SunSpecDataError:
            e['kind'] = 'sdxerr'
        except Exception as x:
            e['kind'] = 'other'
            e['what'] = '%s: %s' % (type(x).__name__, x)

    def write(self, r, how, e):
        before = record(r)
        try:
            return self.write_(r, how, e)
        finally:
            e['same'] = record(r) == before

    def write_(self, r, how, e):
        if how == 'element':
            top = ET.Element('top')
            r.to_xml(top)
            if len(top) != 1:
                raise ValueError('%d elements' % len(top))
            text = ET.tostring(top[0])
        elif how == 'root':
            r.to_xml()
            text = ET.tostring(r.root)
        else:
            text = r.to_xml_str(pretty_print=how == 'pretty')
        if how != 'pretty':
            e['doc'] = parse(text)
        else:
            e['doc'] = parse(text)
        e.update(tables(e['doc']))
        return text

    def run(self):
        ev = []
        os.environ['TZ'] = self.s.get('tz', 'UTC')
        time.tzset()
        built = [{k: v for k, v in o.items() if k != 'how'} for o in self.s['recs']]
        if self.s['recs']:
            e = {}
            self.call(e, lambda _: self.construct(self.s['recs']))
            for b in built:
                ev.append({'e': 'built', 'rec': b})
            if e['kind'] != 'ok':
                ev.append({'e': 'doc', 'r': 1, 'kind': e['kind'], 'doc': {'g': '', 'a': [], 'x': '', 'k': []}, 'ints': [], 'nums': [], 'same': True, 'what': e.get('what') or ''})
                return {'cfg': {'docs': [], 'ints': []}, 'ev': ev}
        for n, r in enumerate(self.recs):
            h = self.s['how'][n]
            e = {'e': 'doc', 'r': n + 1, 'doc': {'g': '', 'a': [], 'x': '', 'k': []}, 'ints': [], 'nums': [], 'same': True}
            got = []
            self.call(e, lambda e: got.append(self.write(r, h['write'], e)))
            ev.append(e)
            if not got:
                break
            if h.get('twice'):
                e = dict(e)
                self.call(e, lambda e: got.append(self.write(r, h['write'], e)))
                ev.append(e)
            b = {'e': 'back', 'r': n + 1}
            back = []

            def read(e):
                x = got[0]
                d = data.SunSpecData(element=ET.fromstring(x)) if h['read'] == 'element' else data.SunSpecData(data_record=x)
                e['rec'] = record(d)
                back.append(d)
            self.call(b, read)
            ev.append(b)
            if back:
                e = {'e': 'again', 'r': n + 1, 'same': True}
                self.call(e, lambda e: self.write(back[0], h['write'], e))
                ev.append(e)
        for n, d in enumerate(self.s.get('docs', [])):
            e = {'e': 'parse', 'n': n + 1}

            def read(e):
                x = document(d['doc'], d.get('style'))
                r = data.SunSpecData(element=ET.fromstring(x)) if d.get('how') == 'element' else data.SunSpecData(data_record=x)
                e['rec'] = record(r)
            self.call(e, read)
            ev.append(e)
        return {'cfg': {'docs': [d['doc'] for d in self.s.get('docs', [])], 'ints': self.s.get('ints', [])}, 'ev': ev}


def run(s):
    return Session(s).run()


if __name__ == '__main__':
    main(run)
