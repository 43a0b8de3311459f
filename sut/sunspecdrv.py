"""Histories of scans, reads, assignments and writes on SunSpec devices."""
import contextlib
import io
import os
import time

from common import Hang, limit, main, octets
import fakes
from values import codes, definition_xml, line, literal, val

fakes.install()
import sunspec.core.modbus.client as mc   # noqa: E402
import sunspec.core.client as sc          # noqa: E402
import sunspec.core.device as device      # noqa: E402
from sunspec.core.util import SunSpecError  # noqa: E402

SCRATCH = os.environ.get('VF_SCRATCH', '/tmp')
napping = [None]


def nap(seconds):
    if napping[0] is not None:
        napping[0].append({'e': 'nap', 'd': int(round(seconds * 1000000))})


time.sleep = nap


class World(fakes.World):
    def __init__(self, tp, unit, segs):
        fakes.World.__init__(self, tp, unit)
        for g in segs:
            for i, w in enumerate(g['w']):
                self.mem[g['a'] + i] = w

    def reg(self, fc, a):
        return self.mem[a]

    def exists(self, fc, addr, cnt):
        return all(addr + i in self.mem for i in range(cnt))

    def answer(self, data, r):
        pdu, ap = fakes.World.answer(self, data, r)
        if r.get('noap') and ap:
            pass
        self.last = (self.parse(data), pdu, ap)
        return pdu, ap

    def request(self, chan, data):
        reps = self.plan.get('replies', [])
        r = reps[self.sends] if self.sends < len(reps) else self.plan.get('then', {})
        self.last = (None, None, False)
        n = len(self.log)
        # the device may have changed since the last request
        for c in self.plan.get('chg', []):
            if c['at'] == self.sends:
                for i, w in enumerate(c['w']):
                    self.mem[c['a'] + i] = w
                self.log.append({'e': 'chg', 'a': c['a'], 'w': c['w']})
                n += 1
        try:
            fakes.World.request(self, chan, data)
        finally:
            del self.log[n:]
            req, pdu, ap = self.last
            if req is None:
                req = self.parse(bytes(data)) or bytes([0] * 6)
            bad = any(k in r for k in ('base', 'ops', 'pdu', 'unit', 'sendfail', 'late'))
            ok = not bad and pdu is not None and pdu[0] < 128
            fc, addr, cnt = req[0], req[1] * 256 + req[2], req[3] * 256 + req[4]
            d = list(req[6:]) if fc == 16 else list(pdu[2:]) if ok else []
            self.log.append({'e': 'req', 'fc': fc, 'addr': addr, 'cnt': cnt, 'd': d, 'ok': ok, 'ap': ap})


def map_xml(segs):
    segs = sorted(segs, key=lambda g: g['a'])
    base = segs[0]['a']
    s = '<mbmap addr="%d">' % base
    for g in segs:
        s += '<regs offset="%d" len="%d" type="hexstr">%s</regs>' % (
            g['a'] - base, len(g['w']), ' '.join('%04x' % w for w in g['w']))
    return s + '</mbmap>'


def binding(model, p):
    x = p.sf_point
    none = {'k': 'none', 'v': 0, 'blk': 0, 'id': ''}
    if x is None:
        return none
    for i, b in enumerate(model.blocks):
        for n, q in b.points_sf.items():
            if q is x:
                return dict(none, k='pt', blk=i, id=n)
    return dict(none, k='const', v=x.value_base if isinstance(x.value_base, int) else -99999)


def num(x):
    try:
        return int(x)
    except (TypeError, ValueError):
        return -99999


def layout(m):
    out = []
    for b in m.blocks:
        out.append({'addr': num(b.addr), 'len': num(b.len), 'type': str(b.type), 'index': num(b.index),
                    'pts': [{'id': p.point_type.id, 'addr': num(p.addr), 'len': num(p.point_type.len), 't': p.point_type.type,
                             'sf': binding(m, p)} for p in b.points_list],
                    'sfs': [{'id': n, 'addr': num(p.addr)} for n, p in b.points_sf.items()]})
        if sorted(b.points) != sorted(p.point_type.id for p in b.points_list) or \
                any(b.points[p.point_type.id] is not p for p in b.points_list):
            out[-1]['type'] = 'points and points_list differ'
    return out


def values(dev):
    return [[[{'b': val(p.value_base), 'v': scaled(p)} for p in b.points_list] for b in m.blocks] for m in dev.models_list]


def scaled(p):
    try:
        return val(p.value)
    except Exception as e:
        return dict(val(None), t='raised %s' % type(e).__name__)


def entry(dev, x):
    idx = [i + 1 for i, m in enumerate(dev.models_list) if m is x.model]
    rep = list(x.repeating)
    return {'m': idx[0] if idx else 0, 'name': x.name, 'points': list(x.points),
            'rep': [([i + 1 for i, b in enumerate(x.model.blocks) if b is r.block] or [0])[0] for r in rep[1:]],
            'rname': x.repeating_name, 'same': rep[0] is None and getattr(x, x.repeating_name, None) is x.repeating,
            'rpoints': [list(r.points) for r in rep[1:]]}


class Session(object):
    def __init__(self, s, tag=''):
        self.s = s
        self.tag = tag
        self.cfg = s['cfg']
        self.via = self.cfg['via']
        self.unit = s.get('unit', 1)
        self.w = World('rtu' if self.via == 'rtu' else 'tcp', self.unit, self.cfg['segs'])
        self.wrap = None
        self.dev = None
        self.log = []
        self.dir = os.path.join(SCRATCH, 'smdx' + tag)
        os.makedirs(self.dir, exist_ok=True)
        for f in os.listdir(self.dir):
            os.remove(os.path.join(self.dir, f))
        for d in self.cfg['defs']:
            with open(os.path.join(self.dir, 'smdx_%05d.xml' % d['id']), 'w') as f:
                f.write(definition_xml(d))
        self.map = os.path.join(SCRATCH, 'device%s.xml' % tag)
        if self.via == 'mapped':
            with open(self.map, 'w') as f:
                f.write(map_xml(self.cfg['segs']))

    def make(self, cls, **kw):
        if self.via == 'rtu':
            return cls(sc.RTU, self.unit, '/dev/fake0' + self.tag, **kw)
        if self.via == 'tcp':
            return cls(sc.TCP, self.unit, ipaddr='10.0.0.1', ipport=502, **kw)
        return cls(sc.MAPPED, self.unit, self.map, **kw)

    def progress(self, stop):
        n = [0]

        def f(text):
            n[0] += 1
            cont = n[0] != stop
            self.w.log.append({'e': 'prog', 'cont': cont})
            # a true or a false value of any kind
            return ((True, 1, 'go')[n[0] % 3] if cont else (False, None, 0)[n[0] % 3])
        return f

    def point(self, o):
        return self.dev.models_list[o['m'] - 1].blocks[o['b'] - 1].points_list[o['p'] - 1]

    def named(self, o):
        """the object that offers the point as attribute and item, found by identity"""
        model = self.dev.models_list[o['m'] - 1]
        for n in self.wrap.models:
            x = self.wrap[n]
            for y in (x[1:] if isinstance(x, list) else [x]):
                if y.model is model:
                    return y if o['b'] == 1 else getattr(y, y.repeating_name)[o['b'] - 1]

    def do(self, o, ret):
        op = o['op']
        if op == 'scan':
            if o.get('wrap'):
                if self.wrap is not None:
                    self.wrap.close()
                elif self.dev is not None:
                    self.dev.close()
                self.wrap = self.dev = None
                kw = {}
                if o.get('stop') is not None:
                    kw['scan_progress'] = self.progress(o['stop'])
                if o.get('delay'):
                    kw['scan_delay'] = o['delay'] / 1000000.
                self.wrap = self.make(sc.SunSpecClientDevice, **kw)
                self.dev = self.wrap.device
            else:
                if o.get('fresh') or self.dev is None:
                    if self.dev is not None:
                        self.dev.close()
                    self.dev = self.make(sc.ClientDevice)
                self.wrap = None       # names stand for the models of the scan they were made from
                kw = {}
                if o.get('stop') is not None:
                    kw['progress'] = self.progress(o['stop'])
                if o.get('delay'):
                    kw['delay'] = o['delay'] / 1000000.
                self.dev.scan(**kw)
        elif op == 'read':
            if o.get('how') == 'device':
                (self.wrap or self.dev).read() if self.wrap else self.dev.read_points()
            elif o.get('how') == 'wrap' and self.wrap:
                self.named({'m': o['ms'][0], 'b': 1}).read()
            else:
                self.dev.models_list[o['ms'][0] - 1].read_points()
        elif op in ('set', 'get'):
            p = self.point(o)
            pid = p.point_type.id
            how = o.get('how', 'value')
            if how == 'value' or not self.wrap:
                if op == 'set':
                    p.value = literal(o['v'])
                else:
                    ret['v'] = val(p.value)
            else:
                x = self.named(o)
                if how == 'attr':
                    if op == 'set':
                        setattr(x, pid, literal(o['v']))
                    else:
                        ret['v'] = val(getattr(x, pid))
                elif op == 'set':
                    x[pid] = literal(o['v'])
                else:
                    ret['v'] = val(x[pid])
        elif op == 'write':
            if o.get('how') == 'wrap' and self.wrap:
                self.named({'m': o['ms'][0], 'b': 1}).write()
            else:
                self.dev.models_list[o['ms'][0] - 1].write_points()
        elif op == 'pwrite':
            self.point(o).write()
        elif op == 'show':
            if o['how'] == 'device':
                text = str(self.wrap)
            else:
                text = str(self.named(o))
            ret['lines'] = [dict(line(x), raw=codes(x)) for x in text.split('\n') if x.strip(' \t\r')]
        elif op == 'wrap':
            w = self.wrap
            ret['names'] = list(w.models)
            ret['entries'] = []
            for n in w.models:
                x = getattr(w, n)
                if w[n] is not x:
                    ret['names'].append('attribute and item differ')
                if isinstance(x, list):
                    ret['entries'].append({'list': True, 'of': [entry(self.dev, y) for y in x[1:]] if x[0] is None else []})
                else:
                    ret['entries'].append({'list': False, 'of': [entry(self.dev, x)]})

    def valid(self, o):
        op = o['op']
        if op == 'scan':
            return True
        if self.dev is None or not self.scanned:
            return False
        if op == 'wrap':
            return self.wrap is not None
        if op == 'show':
            return self.wrap is not None and (o['how'] == 'device' or 1 <= o['m'] <= len(self.dev.models_list) and
                                              1 <= o['b'] <= max(1, len(self.dev.models_list[o['m'] - 1].blocks)))
        if op in ('read', 'write'):
            return all(1 <= m <= len(self.dev.models_list) for m in o['ms'])
        try:
            self.point(o)
            return True
        except IndexError:
            return False

    def start(self):
        self.ev = []
        self.scanned = False
        self.opened = set()
        self.over = False

    def trace(self):
        defs = self.cfg['defs']
        if self.cfg.get('codes'):
            def pts(ps):
                return [dict(p, idc=codes(p['id'])) for p in ps]
            defs = [dict(d, nc=codes(d['name']), rnc=codes(d['rn']), fp=pts(d['fp']), rp=pts(d['rp'])) for d in defs]
        return {'cfg': {'via': self.via, 'defs': defs, 'segs': self.cfg['segs'], 'maxread': 125}, 'ev': self.ev}

    def step(self, o):
        """one operation; the world and the definitions are those of this device"""
        fakes.use(self.w)
        ev, opened = self.ev, self.opened
        with device.fresh_file_pathlist(self.dir):
            if self.over or not self.valid(o):
                return
            call = {k: o[k] for k in ('op', 'm', 'b', 'p') if k in o}
            call['e'] = 'call'
            if o['op'] == 'show':
                call['how'] = o['how']
            if o['op'] == 'scan':
                call['asks'] = o.get('stop') is not None
                call['delay'] = o.get('delay') or -1
            call['fresh'] = bool(o['op'] == 'scan' and (o.get('fresh') or o.get('wrap') or self.dev is None))
            if 'ms' in o:
                call['ms'] = o['ms'] if o.get('how') != 'device' else list(range(1, len(self.dev.models_list) + 1))
            if 'v' in o:
                call['v'] = {k: o['v'][k] for k in ('t', 's', 'd', 'e', 'c')}
            ret = {'e': 'ret', 'kind': 'ok'}
            self.w.log = []
            napping[0] = self.w.log
            if self.via == 'mapped':
                for c in (o.get('plan') or {}).get('chg', []):
                    if self.dev is not None:
                        self.dev.modbus_device.write(c['a'], b''.join(x.to_bytes(2, 'big') for x in c['w']))
                        ev.append({'e': 'chg', 'a': c['a'], 'w': c['w']})
            ev.append(call)
            try:
                with limit(30), contextlib.redirect_stdout(io.StringIO()):
                    self.w.start_call(o.get('plan'))
                    self.do(o, ret)
                if o['op'] == 'scan':
                    self.scanned = True
            except Hang:
                ret['kind'] = 'hang'
            except sc.SunSpecClientError:
                ret['kind'] = 'sserr'
            except Exception as e:
                ret['kind'] = 'other'
                ret['what'] = '%s: %s' % (type(e).__name__, e)
            if ret['kind'] != 'ok' and o['op'] == 'scan':
                self.scanned = False
            for e in self.w.log:
                if e['e'] == 'new':
                    opened.add(e['k'])
                elif e['e'] == 'closed':
                    opened.discard(e['k'])
                elif e['e'] == 'open':
                    if not e['ok']:
                        ev.append({'e': 'fault'})
                else:
                    ev.append(e)
            ret['open'] = len(opened)
            dev = self.dev
            ret['val'] = values(dev) if dev is not None and self.scanned else []
            ret['sfv'] = [[[val(p.value_base) for p in b.points_sf.values()] for b in m.blocks] for m in dev.models_list] \
                if dev is not None and self.scanned else []
            if o['op'] == 'scan':
                ret['base'] = -1 if dev is None or dev.base_addr is None else num(dev.base_addr)
                ret['lay'] = []
                ret['bymodel'] = True
                if self.scanned:
                    ret['lay'] = [{'id': num(m.id), 'addr': num(m.addr), 'len': num(m.len), 'err': m.load_error is not None,
                                   'blocks': layout(m)} for m in dev.models_list]
                    for m in dev.models_list:
                        ret['bymodel'] &= [x for x in dev.models_list if x.id == m.id] == list(dev.models.get(m.id, []))
            if o['op'] in ('write', 'pwrite'):
                ret['dump'] = []
                if self.via == 'mapped':
                    for g in self.cfg['segs']:
                        d = octets(dev.modbus_device.read(g['a'], len(g['w'])))
                        ret['dump'].append({'a': g['a'], 'w': [d[i] * 256 + d[i + 1] for i in range(0, len(d), 2)]})
            ev.append(ret)
            self.over = ret['kind'] == 'hang'

    def load(self, o):
        e = {'e': 'load', 'mid': o['mid'], 'addr': o['addr'], 'len': o['len'], 'kind': 'ok', 'mlen': -1, 'blocks': [], 'exposed': False}
        try:
            with limit(20), contextlib.redirect_stdout(io.StringIO()):
                cls = sc.ClientModel if o.get('client') else device.Model
                m = cls(None, o['mid'], o['addr'], o['len'])
                m.load()
                e['mlen'] = num(m.len)
                e['blocks'] = layout(m)
                b = m.blocks[0]
                e['exposed'] = m.points_list == b.points_list and dict(m.points) == dict(b.points) and \
                    dict(m.points_sf) == dict(b.points_sf)
        except Hang:
            e['kind'] = 'hang'
        except MemoryError:
            e['kind'] = 'hang'
        except SunSpecError:
            e['kind'] = 'sserr'
        except Exception as x:
            e['kind'] = 'other'
            e['what'] = '%s: %s' % (type(x).__name__, x)
        return e


def run(s):
    """a history on one device; with a peer, another device is used in between, and judged in a scenario of its own"""
    mc.modbus_rtu_clients.clear()
    getattr(device, 'model_types', {}).clear()
    me = Session(s)
    me.start()
    other = Session(s['peer'], '-peer') if s.get('peer') else None
    turns = []
    if other:
        other.start()
        turns = list(s['peer']['ops'])
        for _ in range(s['peer'].get('lead', 0)):
            if turns:
                other.step(turns.pop(0))
    fakes.use(me.w)
    with device.fresh_file_pathlist(me.dir):
        for o in s.get('loads', []):
            me.ev.append(me.load(o))
    for o in s.get('ops', []):
        me.step(o)
        if turns:
            other.step(turns.pop(0))
    return me.trace()


if __name__ == '__main__':
    main(run)
