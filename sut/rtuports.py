"""Histories of opening, using and closing RTU devices on serial ports."""
from common import Hang, limit, main, octets
import fakes
import serial


class World(fakes.World):
    """Every slave answers, each with contents of its own."""

    def parse(self, data):
        self.unit = data[0] if data else 0
        return fakes.World.parse(self, data)

    def request(self, chan, data):
        self.log.append({'e': 'send', 'k': chan.k, 'unit': data[0] if data else -1, 'to': chan.timeout_text()})
        n = len(self.log)
        try:
            fakes.World.request(self, chan, data)
        finally:
            del self.log[n:]

    def reg(self, fc, a):
        return (a * 3 + self.unit * 1009) % 65536


class Serial(fakes.FakeSerial):
    def opening(self):
        w = self.world
        w.nk += 1
        self.k = w.nk
        ok = not w.fail
        par = {serial.PARITY_NONE: 'N', serial.PARITY_EVEN: 'E'}.get(self.parity, '?')
        w.log.append({'e': 'opening', 'k': self.k, 'port': str(self.port), 'baud': self.baudrate, 'par': par,
                      'bits': int(self.bytesize), 'stop': int(self.stopbits), 'flow': self.flow,
                      'to': self.timeout_text(), 'ok': ok})
        if not ok:
            self.alive = False
            raise {'serial': serial.SerialException('could not open port'), 'os': OSError(13, 'Permission denied'),
                   'value': ValueError('bad setting')}[w.fail]

    def closing(self):
        self.world.log.append({'e': 'closing', 'k': self.k})


fakes.install(Serial)
import sunspec.core.modbus.client as mc   # noqa: E402
import sunspec.core.client as sc          # noqa: E402


def run(s):
    w = World('rtu')
    w.nk = 0
    w.fail = None
    fakes.use(w)
    mc.modbus_rtu_clients.clear()
    devs = {}
    ev = []
    opened = {}
    for o in s['ops']:
        op, d = o['op'], o['d']
        if op != 'device' and d not in devs:
            continue
        if op == 'read' and not opened.get(d):
            continue
        if op == 'device' and any(x and (t['port'], t['unit']) == (o['port'], o['unit'])
                                  for x, t in ((opened.get(k), devs[k][1]) for k in devs)):
            continue
        call = {'e': 'call', 'op': op, 'd': d}
        if op == 'device':
            call.update(port=o['port'], unit=o['unit'], baud=o['baud'], par=o['par'],
                        to=repr(float(o['to'])) if o['to'] else '')
        ev.append(call)
        w.log = []
        w.fail = o.get('fail') or None
        ret = {'e': 'ret', 'kind': 'ok', 'data': [], 'want': []}
        try:
            with limit(20):
                w.start_call(None)
                if op == 'device':
                    kw = {}
                    if o['baud']:
                        kw['baudrate'] = o['baud']
                    if o['par']:
                        kw['parity'] = o['par']
                    if o['to']:
                        kw['timeout'] = float(o['to'])
                    if o.get('via') == 'client':
                        x = sc.ClientDevice(sc.RTU, o['unit'], o['port'], **kw)
                    else:
                        x = mc.ModbusClientDeviceRTU(o['unit'], o['port'], **kw)
                    devs[d] = (x, o)
                    opened[d] = True
                elif op == 'close':
                    devs[d][0].close()
                    opened[d] = False
                else:
                    a, n = o.get('addr', 5), o.get('cnt', 2)
                    w2 = [((a + i) * 3 + devs[d][1]['unit'] * 1009) % 65536 for i in range(n)]
                    ret['want'] = [b for v in w2 for b in (v // 256, v % 256)]
                    ret['data'] = octets(devs[d][0].read(a, n))
        except Hang:
            ret['kind'] = 'hang'
        except (mc.ModbusClientError, sc.SunSpecClientError):
            ret['kind'] = 'err'
        except Exception as e:
            ret['kind'] = 'other'
            ret['what'] = '%s: %s' % (type(e).__name__, e)
        ev += w.log
        ev.append(ret)
    return {'cfg': {'n': len(ev)}, 'ev': ev}


if __name__ == '__main__':
    main(run)
