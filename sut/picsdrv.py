"""Devices written to PICS documents, loaded from them and compared."""
import contextlib
import io
import os
import shutil
import xml.etree.ElementTree as ET

from common import Hang, limit, main
from sunspecdrv import layout, map_xml, num, scaled
from values import literal, val
from xmltree import document, parse

import sunspec.core.client as sc            # noqa: E402
import sunspec.core.device as device        # noqa: E402
import sunspec.core.util as util            # noqa: E402
from sunspec.core.util import SunSpecError  # noqa: E402

SCRATCH = os.environ.get('VF_SCRATCH', '/tmp')


def state(dev):
    ms = dev.models_list
    by = True
    for m in ms:
        by &= [x for x in ms if x.id == m.id] == list(dev.models.get(m.id, []))
    return {'base': num(dev.base_addr), 'bymodel': by and sum(len(x) for x in dev.models.values()) == len(ms), 'models': [{
        'id': num(m.id), 'addr': num(m.addr), 'len': num(m.len), 'err': m.load_error is not None, 'blocks': layout(m),
        'vals': [{'pts': [{'b': val(p.value_base), 'v': scaled(p), 'k': val(p.value_sf), 'i': [bool(p.impl), bool(p.dirty)]} for p in b.points_list],
                  'sfs': [val(p.value_base) for p in b.points_sf.values()]} for b in m.blocks]} for m in ms]}


def text_row(x):
    try:
        f = val(float(x))
    except ValueError:
        f = val(None)
    return [x, [ord(c) for c in x], f]


def tables(doc):
    ints, texts = {}, {}

    def walk(e):
        for k, v in e['a']:
            if k in ('id', 'len', 'addr', 'index') and v.lstrip('-').isdigit():
                ints[v] = int(v)
        if e['g'] == 'point':
            texts[e['x']] = text_row(e['x'])
        for c in e['k']:
            walk(c)
    walk(doc)
    return {'ints': sorted([k, v] for k, v in ints.items()), 'texts': [texts[k] for k in sorted(texts)]}


class Session(object):
    def __init__(self, s):
        self.s = s
        self.devs = {}
        self.text = {}
        self.dir = os.path.join(SCRATCH, 'pics')
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.docs = os.path.join(self.dir, 'docs')
        os.makedirs(self.docs)
        for n, docs in enumerate(s['sets']):
            d = os.path.join(self.dir, 'set%d' % (n + 1))
            os.makedirs(d)
            for x in docs:
                with open(os.path.join(d, 'smdx_%05d.xml' % x['id']), 'wb') as f:
                    f.write(document(x['doc'], x.get('style')))

    def defs(self, n, *more):
        getattr(device, 'model_types', {}).clear()
        return device.fresh_file_pathlist(os.path.join(self.dir, 'set%d' % n), *more)

    def point(self, d, o):
        b = self.devs[d].models_list[o['m'] - 1].blocks[o['b'] - 1]
        return b.points_list[o['p'] - 1] if 'p' in o else list(b.points_sf.values())[o['s'] - 1]

    def fill(self, d, puts):
        """sets unscaled values, and scale factors accordingly"""
        for o in puts:
            try:
                p = self.point(d, o)
            except IndexError:
                continue          # a model that could not be loaded
            p.value_base = None if o['v'] is None else literal(o['v'])
        for m in self.devs[d].models_list:
            for b in m.blocks:
                for p in b.points_list:
                    if p.sf_point is not None:
                        p.value_sf = p.sf_point.value_base

    def build(self, o):
        with self.defs(o['set']):
            dev = device.Device(o['base'])
            addr = o['base'] + 2
            for x in o['models']:
                m = device.Model(dev, x['id'], addr + 2, x['len'])
                try:
                    m.load()
                except SunSpecError as e:
                    m.load_error = str(e)
                dev.add_model(m)
                addr += 2 + m.len
            self.devs[o['d']] = dev
            self.fill(o['d'], o['put'])

    def scan(self, o):
        path = os.path.join(self.dir, 'map.xml')
        with open(path, 'w') as f:
            f.write(map_xml(o['segs']))
        with self.defs(o['set']):
            dev = sc.ClientDevice(sc.MAPPED, 1, path)
            dev.scan()
            if o.get('read', True):
                dev.read_points()
            dev.close()
        self.devs[o['d']] = dev

    def write(self, o, e):
        root = ET.Element('sunSpecPics', {'v': '1'})
        before = ET.SubElement(root, 'date')
        before.text = '2012-01-01'
        self.devs[o['d']].to_pics(root, single_repeating=o['single']) if o['single'] is False or o.get('say') else self.devs[o['d']].to_pics(root)
        kids = list(root)
        if len(kids) != 2 or kids[0] is not before or before.text != '2012-01-01' or len(before):
            raise ValueError('%d elements in the document' % len(kids))
        if o.get('pretty'):
            util.indent(root)
        text = ET.tostring(root)
        doc = parse(text)
        e['doc'] = doc['k'][1]
        e.update(tables(e['doc']))
        self.text[o['d']] = text

    def load(self, o, e):
        s = self.s
        if o['src']:
            text = self.text[o['src']]
            how = o['how']
        else:
            x = s['docs'][o['n'] - 1]
            text = document(x['doc'], x.get('style'))
            how = x['how']
        dev = device.Device()
        name = 'pics_doc.xml'
        for f in os.listdir(self.docs):
            os.remove(os.path.join(self.docs, f))
        path = os.path.join(self.docs, name)
        with open(path, 'wb') as f:
            f.write(text)
        more = [self.docs] if how == 'devlist' else []
        with self.defs(o['set'], *more):
            if how == 'element':
                el = ET.fromstring(text)
                if o['src']:
                    el = el.find('device')
                dev.from_pics(element=el)
            elif how == 'pathlist':
                pl = util.PathList()
                pl.add(self.docs)
                dev.from_pics(filename=name, pathlist=pl)
            elif how == 'devlist':
                dev.from_pics(filename=name, pathlist=util.PathList() if o.get('empty') else None)
            else:
                dev.from_pics(filename=path)
        self.devs[o['d']] = dev
        e['dev'] = state(dev)

    def call(self, e, f):
        try:
            with limit(20), contextlib.redirect_stdout(io.StringIO()):
                f()
            e['kind'] = 'ok'
        except Hang:
            e['kind'] = 'hang'
        except SunSpecError as x:
            e['kind'] = 'sserr'
            e['what'] = str(x)
        except Exception as x:
            e['kind'] = 'other'
            e['what'] = '%s: %s' % (type(x).__name__, x)
        return e['kind'] == 'ok'

    def run(self):
        ev = []
        s = self.s
        for o in s['ops']:
            op = o['op']
            if any(o.get(k) and o[k] not in self.devs for k in ('src', 'a', 'b') if op in ('load', 'cmp')) or \
                    op in ('write', 'put') and o['d'] not in self.devs or op == 'load' and o['src'] and o['src'] not in self.text:
                continue
            if op in ('build', 'scan'):
                # how devices come about is the concern of other properties
                if not self.call({}, lambda: self.build(o) if op == 'build' else self.scan(o)):
                    self.devs.pop(o['d'], None)
                    continue
                ev.append({'e': 'built', 'd': o['d'], 'set': o['set'], 'dev': state(self.devs[o['d']])})
                self.sets = dict(getattr(self, 'sets', {}), **{str(o['d']): o['set']})
            elif op == 'put':
                try:
                    self.fill(o['d'], o['put'])
                except IndexError:
                    continue
                ev.append({'e': 'built', 'd': o['d'], 'set': self.sets[str(o['d'])], 'dev': state(self.devs[o['d']])})
            elif op == 'write':
                e = {'e': 'wrote', 'd': o['d'], 'single': o['single'], 'doc': {'g': '', 'a': [], 'x': '', 'k': []}, 'ints': [], 'texts': []}
                ok = self.call(e, lambda: self.write(o, e))
                ev.append(e)
                if not ok:
                    break
                ev.append({'e': 'state', 'd': o['d'], 'dev': state(self.devs[o['d']])})
            elif op == 'load':
                e = {'e': 'loaded', 'd': o['d'], 'set': o['set'], 'src': o['src'], 'n': o.get('n', 0)}
                if self.call(e, lambda: self.load(o, e)):
                    self.sets = dict(getattr(self, 'sets', {}), **{str(o['d']): o['set']})
                ev.append(e)
            elif op == 'cmp':
                e = {'e': 'cmp', 'a': o['a'], 'b': o['b'], 'eq': False}
                r = []
                if self.call(e, lambda: r.append(self.devs[o['a']].not_equal(self.devs[o['b']]))):
                    e['eq'] = not r[0]
                    e['why'] = str(r[0])
                ev.append(e)
                for d in sorted({o['a'], o['b']}):
                    ev.append({'e': 'state', 'd': d, 'dev': state(self.devs[d])})
        return {'cfg': {'sets': [[{'doc': x['doc']} for x in y] for y in s['sets']],
                        'docs': [{'how': x['how'], 'doc': x['doc']} for x in s['docs']], 'ints': s['ints'], 'texts': s['texts']}, 'ev': ev}


def run(s):
    return Session(s).run()


if __name__ == '__main__':
    main(run)
